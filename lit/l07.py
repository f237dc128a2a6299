from base import *
from model import *

RULE = ("One case is a suite run with a time limit whose tests end early, write much, hang, ignore signals or leave children behind; statuses, logged output, wall time and surviving processes "
        "are compared with what the tests do. Non-trivial: every test that ends at the limit or writes output, by behaviour.")
ASSUMPTIONS = ["a test of a few milliseconds ends within a limit of 3 s, otherwise the case is repeated; limits are seconds, the bound for the end of a run is the limit plus 20 s",
               "processes which leave the process group of their test are not covered"]

LIMIT = 3

# name -> (commands, status, logs of ends)
PID = 'echo "$$" >> "$VDIR/pids"; '
def behaviours(rng, id):
    big = rng.choice([10, 100000, 3000000])
    out = "%s-%d" % (id, big)
    yes = "yes %s | head -c %d" % (id, big)
    B = {
        "quick": ("rec {0} end", "PASS", 1),
        "quick fail": ("rec {0} end; false", "FAIL", 1),
        "quick xfail": ("rec {0} end; false", "XFAIL", 1),
        "much output": ("%s; rec {0} end" % yes, "PASS", 1),
        "much stderr": ("%s >&2; rec {0} end" % yes, "PASS", 1),
        "much of both": ("%s & %s >&2; wait; rec {0} end" % (yes, yes), "PASS", 1),
        "nearly": ("sleep 0.4; rec {0} end", "PASS", 1),
        "reads nothing": ("rec {0} end; exit 0", "PASS", 1),
        "reads input": ("cat > /dev/null; rec {0} end", None, None),
        "sleeps": (PID + "sleep 60; rec {0} never", "TIMEOUT", 0),
        "sleeps xfail": (PID + "sleep 60; rec {0} never", "TIMEOUT", 0),
        "spins": (PID + "while :; do :; done", "TIMEOUT", 0),
        "ignores TERM": ("trap '' TERM INT HUP; " + PID + "sleep 60; sleep 60; rec {0} never", "TIMEOUT", 0),
        "child ignores TERM": ("sh -c 'trap \"\" TERM INT HUP QUIT PIPE ALRM USR1 USR2; echo $$ >> $VDIR/pids; exec sleep 66'; rec {0} never", "TIMEOUT", 0),
        "orphan ignores TERM": ("sh -c 'trap \"\" TERM INT HUP QUIT PIPE ALRM USR1 USR2; echo $$ >> $VDIR/pids; exec sleep 67' & rec {0} end", ("PASS", "TIMEOUT"), 1),
        "floods": (PID + "yes {0}", "TIMEOUT", 0),
        "child sleeps": (PID + "(echo $(exec sh -c 'echo $PPID') > /dev/null; sleep 60; rec {0} never) & wait", "TIMEOUT", 0),
        "pipeline": (PID + "sleep 60 | sleep 61 | cat; rec {0} never", "TIMEOUT", 0),
        "deep": (PID + "sh -c 'sh -c \"echo \\$\\$ >> \\$VDIR/pids; sleep 62; true\"; true'; rec {0} never", "TIMEOUT", 0),
        "orphan with output": ("(echo $(exec sh -c 'echo $PPID') >> \"$VDIR/pids\"; sleep 63) & rec {0} end", ("PASS", "TIMEOUT"), 1),
        "orphan without output": ("(sleep 2; true) > /dev/null 2>&1 & rec {0} end", "PASS", 1),
        "late output": ("(sleep 0.%d; rec {0} end; echo late) & :" % rng.randint(3, 9), "PASS", 1),
        "a little late": (PID + "sleep %d.7; rec {0} never" % LIMIT, "TIMEOUT", 0),
        "long script": (PID + "sleep 60" + "; rec {0} never; : " + "x" * 400 + "\nRUN: rec {0} never; : %s" % ("y" * 700) * 300, "TIMEOUT", 0),
        "long script ends": ("rec {0} end; exit 0" + "\nRUN: rec {0} never; : %s" % ("y" * 700) * 300, "PASS", 1),
        "retries": ("rec {0} end; sleep 60", "TIMEOUT", 1),
    }
    B.pop("reads input")
    return B

def limits(case):
    rng = case.rng
    helpers(case)
    s = Suite("l", "l", extra='exclude = ["lit.suite.toml"]\n', fmt=rng.choice(["shtest", "shtest", "executable"]))
    B = [k for k in behaviours(rng, "X") if s.fmt == "shtest" or not ("xfail" in k or "script" in k or k == "retries")]
    kinds = [rng.choice(B) for _ in range(rng.randint(4, 10))]
    for i, k in enumerate(kinds):
        cmd, status, ends = behaviours(rng, "T%d" % i)[k]
        t = T("T%d" % i)
        t.kind, t.status, t.ends = k, status, ends
        t.content = ("XFAIL: *\n" if "xfail" in k else "ALLOWED_RETRIES: 2\n" if k == "retries" else "") + "RUN: " + cmd.replace("{0}", t.id) + "\n"
        if s.fmt == "executable":
            t.content, t.mode = "#!/bin/sh\n" + cmd.replace("{0}", t.id) + "\n", 0o755
        s.tests["t%d.t" % i] = t
    s.write(case)
    workers = rng.choice([2, 8])
    hanging = sum(t.status != "PASS" and not k.startswith("quick") for k, t in zip(kinds, s.tests.values()))
    bound = (hanging + workers - 1) // workers * LIMIT * 2 + LIMIT + 20
    res = case.lit("--timeout", str(LIMIT), "-j%d" % workers, "l", limit=bound + 30, watch=lambda: watch(case))
    case.note("%s" % kinds)
    rep = Report(res)
    expected = {}
    got = dict((n, tag) for tag, n in rep.lines)
    for p, t in s.tests.items():
        g = got.get(s.full(p))
        if isinstance(t.status, tuple):
            case.ensure(g in t.status, "%s (%s) is reported %s" % (p, t.kind, g), res)
            expected[s.full(p)] = g
        else:
            if g != t.status:
                case.fail("%s (%s) is reported %s instead of %s" % (p, t.kind, g, t.status), t.content, res)
            expected[s.full(p)] = t.status
        ends = sum(e.startswith(t.id + "\x1f") for e in case.events())
        case.ensure(ends == t.ends, "%s (%s) ended %d times instead of %d" % (p, t.kind, ends, t.ends), res)
        case.evaluated((t.kind, t.content.replace(t.id, "T"), workers) if not t.kind.startswith("quick") else None)
        case.count("behaviour: " + t.kind)
    check_report(case, res, expected)
    case.ensure(res.wall < bound, "the run took %.1f s, more than %d s" % (res.wall, bound), res)
    survivors(case, res)

def watch(case):
    """Everything that a stopped test started has to be gone (allowing for the time it takes to be reaped)"""
    path = os.path.join(case.dir, "pids")
    pids = [int(x) for x in open(path).read().split()] if os.path.exists(path) else []
    def alive(pid):
        try:
            with open("/proc/%d/stat" % pid) as f:
                return f.read().rsplit(")", 1)[1].split()[0] != "Z"
        except OSError:
            return False
    end = time.time() + 5
    while time.time() < end and any(alive(p) for p in pids):
        time.sleep(.05)
    case.left = [p for p in pids if alive(p)]
    case.pids.update(case.left)
    case.count("processes observed to be gone", len(pids) - len(case.left))

def survivors(case, res):
    case.ensure(not case.left, "processes survive the tests that started them: %s" % case.left, res)

def group(case):
    """Each process of a stopped test, whatever its depth, is gone after the run"""
    rng = case.rng
    helpers(case)
    stubborn = rng.choice(["", "trap '' TERM INT HUP QUIT\n"])
    case.helper("tree", stubborn + 'echo $$ >> "$VDIR/pids"\nif [ "$1" -gt 0 ]; then tree $(($1-1)) & tree $(($1-1)); fi\nsleep 64\n')
    s = Suite("l", "l", fmt=rng.choice(["shtest", "executable"]))
    for i in range(3):
        t = T("T%d" % i)
        d = rng.randint(0, 3)
        t.content, t.mode = ("RUN: tree %d\n" % d, 0o644) if s.fmt == "shtest" else ("#!/bin/sh\ntree %d\n" % d, 0o755)
        s.tests["t%d.t" % i] = t
    s.write(case)
    res = case.lit("--timeout", rng.choice(["1", "1", "2"]), "-j3", "l", watch=lambda: watch(case))
    check_report(case, res, {s.full(p): "TIMEOUT" for p in s.tests})
    survivors(case, res)
    case.evaluated((case.index, s.fmt, stubborn))

def output(case):
    """All output of a test is kept, up to where it is stopped, however much it is"""
    rng = case.rng
    helpers(case)
    s = Suite("l", "l")
    stopped = rng.random() < .4
    n = rng.choice([1, 100, 5000, 60000] if stopped else [1, 100, 5000, 60000, 200000, 200000])
    for i in range(3):
        t = T("T%d" % i)
        to = rng.choice(["", " >&2"])
        t.content = "RUN: seq -f line%d-%%%%.0f 1 %d%s; %s\n" % (i, n, to, "sleep 60" if stopped else "exit 2")
        s.tests["t%d.t" % i] = t
    s.write(case)
    args = ["--timeout", "2"] if stopped else rng.choice([[], ["--timeout", "60"]])
    res = case.lit(*args, "-v", "-j3", "l")
    for i in range(3):
        got = re.findall(r"^line%d-(\d+)$" % i, res.out, re.M)
        case.ensure(got == [str(k) for k in range(1, n + 1)], "%d of %d lines of output of t%d were kept, in order or not" % (len(got), n, i), res)
        case.evaluated(("output", n, stopped))
        case.count("lines of output compared", n)
    tags = dict((nm, tag) for tag, nm in Report(res).lines)
    case.ensure(all(tags[s.full(p)] == ("TIMEOUT" if stopped else "FAIL") for p in s.tests), "wrong status: %s" % tags, res)

def unlimited(case):
    """Without a limit nothing is stopped"""
    rng = case.rng
    helpers(case)
    s = Suite("l", "l")
    t = T("T")
    t.content = "RUN: sleep %.1f; rec T end\n" % rng.choice([1.5, 2.5])
    s.tests["t.t"] = t
    s.write(case)
    res = case.lit(*(["--timeout", "0"] if rng.random() < .5 else []), "l")
    check_report(case, res, {"l::t.t": "PASS"})
    check_events(case, [("T", ["T\x1fend"])], res)
    case.evaluated(("unlimited", t.content))

GENEROUS = [10, 31, 32, 33, 59, 60, 61, 64, 96, 100, 127, 128, 255, 256, 1000, 1024, 3600, 4096, 65535, 65536, 86400, 10**6, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 10**10, 2**53, 2**63 - 1, 2**63, 2**64 - 1]

def generous(case):
    """A limit which is not reached changes nothing, however large it is"""
    rng = case.rng
    helpers(case)
    k = case.index % len(GENEROUS)
    limit = GENEROUS[k] if case.index < len(GENEROUS) else rng.randint(10, 2**rng.randint(4, 64) - 1)
    s = Suite("l", "l")
    for i in range(3):
        s.tests["s%d.t" % i] = shell_test(rng, "T%d" % i)
    for i, (cmd, status) in enumerate([("sleep %.1f; rec S0 end" % rng.choice([.3, 1.3, 2.2]), "PASS"), ("seq 30000; rec S1 end; exit 3", "FAIL")]):
        t = T("S%d" % i)
        t.content, t.status, t.events = "RUN: %s\n" % cmd, status, ["S%d\x1fend" % i]
        s.tests["q%d.t" % i] = t
    s.write(case)
    res = case.lit(*rng.choice([["--timeout", str(limit)], ["--timeout=%d" % limit]]), "-j%d" % rng.choice([1, 4]), "l")
    check_report(case, res, {s.full(p): t.status for p, t in s.tests.items()})
    check_events(case, [(t.id, t.events) for t in s.tests.values()], res)
    case.evaluated(("generous", limit))

def separate(case):
    """The limit is that of each test, not of the run"""
    rng = case.rng
    helpers(case)
    s = Suite("l", "l")
    for i in range(6):
        t = T("T%d" % i)
        t.content = "RUN: sleep 0.6; rec T%d end\n" % i
        s.tests["t%d.t" % i] = t
    s.write(case)
    res = case.lit("--timeout", "2", "-j%d" % rng.choice([1, 2]), "l")
    check_report(case, res, {s.full(p): "PASS" for p in s.tests})
    case.evaluated(("separate", case.index))

def prompt(case):
    """A test is stopped when the limit expires, not before and not long after it"""
    rng = case.rng
    helpers(case)
    s = Suite("l", "l", fmt=rng.choice(["shtest", "executable"]))
    limit = rng.choice([1, 1, 2, 3, 5])
    for i in range(rng.choice([1, 1, 3])):
        t = T("T%d" % i)
        cmd = rng.choice(["sleep 60", "cat /dev/zero > /dev/null", "while :; do sleep 0.1; done", "while :; do echo x; sleep 0.2; done", "sleep 60 & sleep 60"])
        t.content, t.mode = (("RUN: " if s.fmt == "shtest" else "#!/bin/sh\n") + cmd + "\n"), 0o755
        s.tests["t%d.t" % i] = t
    s.write(case)
    res = case.lit("--timeout", str(limit), "-j4", "l", limit=40)
    check_report(case, res, {s.full(p): "TIMEOUT" for p in s.tests})
    case.ensure(limit <= res.wall < limit + 6, "tests with a limit of %d s were stopped after %.1f s" % (limit, res.wall), res)
    case.evaluated(("prompt", limit, s.fmt, tuple(t.content for t in s.tests.values())))

STREAMS = [("prompt", 10, 60, prompt, 2), ("limits", 56, 300, limits, 1), ("group", 10, 60, group, 1), ("output", 24, 240, output, 1), ("unlimited", 4, 20, unlimited, 1), ("separate", 4, 30, separate, 1), ("generous", len(GENEROUS), 3 * len(GENEROUS), generous, 1)]
