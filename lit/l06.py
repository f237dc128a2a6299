from base import *
from model import *
from l01 import observe

RULE = ("One case is a suite of tests with retry allowances whose executions follow generated histories of successes, failures, signals and timeouts; each execution logs its steps, "
        "and the log and the status are compared with the history. Non-trivial: every test with an allowance, by history.")

def history(rng, id):
    """A test whose k-th execution ends as generated: '0' passes, digit 1..9 fails at that step, 'U' is killed by a signal"""
    t = T(id)
    n = rng.randint(1, 4)                       # steps
    allowed = rng.choice([None, 0, 1, 1, 2, 3, 3, 7])
    many = rng.random() < .08
    if many:
        allowed = rng.randint(9, 40)
    hist = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 9]) if not many else rng.randint(allowed - 4, allowed + 2)):
        hist.append(rng.choices(["0", "F", "U"], [3, 9, 1] if not many else [0, 99, 1])[0])
    hist = [(h, rng.randint(0, n - 1)) for h in hist]
    xfail = rng.random() < .2
    status = None
    for k in range((allowed or 0) + 1):
        h, at = hist[k] if k < len(hist) else ("0", 0)
        if h == "0":
            t.events += ["%s\x1f%d\x1f%d" % (id, k, s) for s in range(n)]
            status = "PASS" if k == 0 else "FLAKYPASS"
            break
        t.events += ["%s\x1f%d\x1f%d" % (id, k, s) for s in range(at + 1)]
        if h == "U":
            status = "UNRESOLVED"
            break
        status = "FAIL"
    t.status = status if not xfail else {"PASS": "XPASS", "FLAKYPASS": "XPASS", "FAIL": "XFAIL"}.get(status, status)
    lines = []
    # an execution finds out its number at its first step
    for s in range(n):
        first = 'f="$VDIR/run-%s"; n=$(cat "$f" 2>/dev/null || echo 0); echo $((n+1)) > "$f"' % id if s == 0 else 'n=$(($(cat "$VDIR/run-%s")-1))' % id
        cases = []
        for k, (h, at) in enumerate(hist):
            if at == s and h != "0":
                cases.append("%d) %s;;" % (k, {"F": rng.choice(["false", "exit 3", "sh -c \"exit 77\"", "test 1 = 2"]), "U": "kill -9 $$"}[h]))
        lines.append("RUN: %s; rec %s $n %d; case $n in %s *) true;; esac" % (first, id, s, " ".join(cases)))
    if allowed is not None:
        lines.insert(rng.randint(0, len(lines)), rng.choice(COMMENTS) + "ALLOWED_RETRIES:" + rng.choice(["", " ", "  "]) + str(allowed))
    if xfail:
        lines.insert(0, "XFAIL: *")
    t.content = "\n".join(lines) + "\n"
    t.key = (n, allowed, tuple(hist[:(allowed or 0) + 1]), xfail)
    return t

def histories(case):
    rng = case.rng
    helpers(case)
    s = Suite("r", "r")
    for i in range(8):
        s.tests["t%d.t" % i] = history(rng, "T%d" % i)
    s.write(case)
    res, _ = observe(case, [s], ["-j%d" % rng.choice([1, 4]), "r"] if rng.random() < .8 else ["--timeout", "30", "r"])
    for t in s.tests.values():
        case.evaluated(t.key if t.key[1] is not None else None)
        case.count("executions", t.events and 1 + max(int(e.split("\x1f")[1]) for e in t.events) or 0)
    case.note(repr(s.tests["t0.t"].key))

def state(case):
    """A retry starts the script over, in an environment and directory like that of the first execution"""
    rng = case.rng
    helpers(case)
    s = Suite("r", "r", extra='env = { V = "v0" }\n')
    t = T("T")
    k = rng.randint(1, 4)
    t.content = ("ALLOWED_RETRIES: %d\nDEFINE: %%{d} = d1\nRUN: rec T \"$V\" \"$(pwd)\" '%%t' '%%s' %%{d}; V=changed; export V; cd /\nRUN: rec T \"$V\" \"$(pwd)\"; flaky T %d\n" % (k + rng.choice([0, 1]), k))
    s.tests["t.t"] = t
    s.write(case)
    res = case.lit("r")
    check_report(case, res, {"r::t.t": "FLAKYPASS"})
    ev = case.events()
    case.ensure(len(ev) == 3 * (k + 1), "%d instead of %d steps" % (len(ev), 3 * (k + 1)), ev, res)
    for i in range(k + 1):
        case.ensure(ev[3 * i] == ev[0] and ev[3 * i + 1] == ev[1], "execution %d differs from the first" % i, ev)
        case.evaluated(("state", k, i))
    case.ensure(ev[0].split("\x1f")[1] == "v0" and ev[1].split("\x1f")[1:] == ["changed", "/"], "unexpected environment", ev)

def timeouts(case):
    """An execution that is stopped at its timeout is not retried"""
    rng = case.rng
    helpers(case)
    s = Suite("r", "r")
    t = T("T")
    t.content = "ALLOWED_RETRIES: 3\n%sRUN: rec T x; sleep 30\n" % rng.choice(["", "XFAIL: *\n"])
    t.status, t.events = "TIMEOUT", ["T\x1fx"]
    s.tests["t.t"] = t
    s.write(case)
    observe(case, [s], ["--timeout", "1", "r"])
    case.evaluated(("timeout", t.content))

STREAMS = [("histories", 200, 2000, histories), ("state", 16, 160, state), ("timeouts", 4, 16, timeouts)]
