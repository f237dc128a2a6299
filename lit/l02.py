from base import *
from model import *
from l01 import observe

RULE = ("One case is a suite of shell (sh, bash, with and without pipefail) or executable tests made of commands whose outcome is known (exit codes, signals, pipelines, `not`, filecheck), "
        "with expectations and conditions; the status of each test, the exit status of the run and the logged executions are compared with what the commands do. "
        "Non-trivial: every suite with a test, by content.")
ASSUMPTIONS = ["the outcome of each command in the catalogue is that of a POSIX shell"]

def one(case, tests, fmt="shtest", fmt_extra="", args=(), no_execute=False):
    s = Suite("v", "v", patterns=["*"], extra='exclude = ["lit.suite.toml"]\n', fmt=fmt, fmt_extra=fmt_extra)
    for i, t in enumerate(tests):
        s.tests["t%d" % i + case.rng.choice(["", ".t", ".x.y"])] = t
    s.write(case)
    res, _ = observe(case, [s], list(args) + ["v"], quiet="-q" in args, no_execute=no_execute)
    case.evaluated(tuple(t.content for t in tests))
    return res

def mix(case):
    rng = case.rng
    helpers(case)
    tests = [shell_test(rng, "T%d" % i) for i in range(rng.randint(4, 14))]
    args = ["-j%d" % rng.choice([1, 4])] + rng.choice([[], [], ["-q"], ["-a"]])
    if rng.random() < .15:
        one(case, tests, args=args + ["--no-execute"], no_execute=True)
    else:
        one(case, tests, args=args)

def alone(case):
    """The exit status of the run is decided by a single test among passing ones"""
    rng = case.rng
    helpers(case)
    st = ["PASS", "FAIL", "XFAIL", "XPASS", "UNSUPPORTED", "UNRESOLVED", "FLAKYPASS"][case.index % 7]
    tests = [shell_test(rng, "T%d" % i, only="PASS") for i in range(rng.choice([0, 1, 4]))]
    tests.insert(rng.randint(0, len(tests)), shell_test(rng, "S", only=st))
    case.note("%s alone" % st)
    one(case, tests, args=rng.choice([[], ["-q"]]))

def commands(case):
    """Each command of the catalogue between two others, expected to fail or not"""
    rng = case.rng
    helpers(case)
    tests = []
    for i in range(8):
        cmd, outcome = COMMANDS[(case.index * 8 + i) % len(COMMANDS)]
        xfail = rng.random() < .4
        t = T("T%d" % i)
        t.content = "GOOD: one two\n%s// RUN: rec T%d 0\n// RUN: %s\n// RUN: rec T%d 1" % ("XFAIL: *\n" if xfail else "", i, cmd, i) + rng.choice(["", "\n"])
        t.events = ["T%d\x1f0" % i] + (["T%d\x1f1" % i] if outcome is None else [])
        t.status = {None: ("PASS", "XPASS"), "F": ("FAIL", "XFAIL"), "U": ("UNRESOLVED", "UNRESOLVED")}[outcome][xfail]
        tests.append(t)
        case.note(cmd)
    one(case, tests)

def codes(case):
    """Every exit code, of shell and executable tests"""
    helpers(case)
    lo = case.index * 16
    fmt = ["shtest", "executable"][case.rng.randint(0, 1)]
    tests = []
    for c in range(lo, min(lo + 16, 256)):
        t = T("T%d" % c)
        t.status = "PASS" if c == 0 else "FAIL"
        t.events = ["T%d\x1fx" % c]
        if fmt == "shtest":
            t.content = "RUN: rec T%d x\nRUN: sh -c 'exit %d'\n" % (c, c)
        else:
            t.content, t.mode = "#!/bin/sh\nprintf 'T%d\\037x\\n' >> $VLOG\nexit %d\n" % (c, c), 0o755
        tests.append(t)
    one(case, tests, fmt=fmt)

def executable(case):
    rng = case.rng
    one(case, [exec_test(rng, "T%d" % i) for i in range(rng.randint(1, 8))], fmt="executable")

def shells(case):
    """Other shells, and pipefail"""
    rng = case.rng
    helpers(case)
    pipefail = rng.random() < .6
    tests = []
    for i in range(6):
        a, b = rng.choice([("true", "true"), ("false", "true"), ("true", "false"), ("exit 3", "cat"), ("echo", "cat"), ("false", "cat | cat")])
        good = b != "false" and (not pipefail or a in ("true", "echo"))
        t = T("T%d" % i)
        more = rng.choice(["", "[[ x == x ]]", "a=(1 2); [ ${#a[@]} = 2 ]"])
        t.content = "RUN: true | true\n" * rng.choice([0, 0, 1, 4, 9]) + "RUN: (%s) | %s\n" % (a, b) + ("RUN: %s\n" % more if more else "") + "RUN: rec T%d 0\n" % i
        t.events = ["T%d\x1f0" % i] if good else []
        t.status = "PASS" if good else "FAIL"
        tests.append(t)
    one(case, tests, fmt_extra='shell = "bash"\n' + ("pipefail = true\n" if pipefail else rng.choice(["", "pipefail = false\n"])))

def broken(case):
    """What is broken is reported, and does not keep the rest from running"""
    rng = case.rng
    helpers(case)
    kind = case.index % 9
    good = [shell_test(rng, "T%d" % i, only="PASS") for i in range(3)]
    bad = T("B")
    bad.status = "UNRESOLVED"
    if kind == 0:
        bad.content = b"RUN: rec B \xff\xfe\n"
        one(case, good + [bad])
    elif kind == 1:
        bad.content = "RUN: rec B x\0y\n"
        one(case, good + [bad])
    elif kind == 2:
        bad.content = "RUN: rec B\n"
        one(case, [bad] + good, fmt_extra='shell = "/no/such/shell"\n') if False else None
        s = Suite("v", "v", fmt_extra='shell = "/no/such/shell"\n')
        s.tests = {"a.t": bad}
        s.write(case)
        observe(case, [s], ["v"])
        case.evaluated("no shell")
    elif kind == 3:
        case.write("v/lit.suite.toml", rng.choice(['name = "v', 'patterns = ["*"]', 'name = ""\npatterns=["*"]', 'name = "v"\npatterns = ["["]', 'name = 3', 'name = "v"\nsource_dir = "nowhere"\npatterns=["*"]', 'name="v"\nenv = 3']))
        case.write("v/a.t", "RUN: rec B\n")
        res = case.lit("v")
        case.ensure(res.rc != 0, "a broken suite has to fail the run", res)
        check_events(case, [], res)
        case.evaluated("broken suite %d" % case.index)
    elif kind == 4:
        case.write("v/a.t", "RUN: rec B\n")
        res = case.lit("v")
        case.ensure(res.rc != 0, "a path without a suite has to fail the run", res)
        case.evaluated("no suite")
    elif kind == 5:
        s = Suite("v", "v")
        s.write(case)
        res = case.lit("v")
        case.ensure(res.rc != 0, "a suite without tests has to fail the run", res)
        case.evaluated("no tests")
    elif kind == 6:
        res = case.lit("nowhere")
        case.ensure(res.rc != 0, "a path that does not exist has to fail the run", res)
        case.evaluated("no path")
    elif kind == 7:
        # removed by a test that runs before it
        s = Suite("v", "v")
        t = T("A")
        t.content, t.events, t.status = "RUN: rec A 0\nRUN: rm '%S/z.t'\n", ["A\x1f0"], "PASS"
        bad.content = "RUN: rec B\n"
        s.tests = {"a.t": t, "z.t": bad}
        s.write(case)
        res = case.lit("-j1", "v")
        rep = Report(res)
        tags = dict((n, tag) for tag, n in rep.lines)
        if tags.get("v::z.t") == "PASS":
            case.count("removed test ran first")
        else:
            check_report(case, res, {"v::a.t": "PASS", "v::z.t": "UNRESOLVED"})
        case.evaluated("removed test")
    elif kind == 8:
        # broken local configuration
        case.write("v/lit.suite.toml", Suite("v", "v").toml())
        case.write("v/d/lit.local.toml", rng.choice(['env = 3', 'patterns = ["["]', 'x', 'format = "shtest"']))
        case.write("v/d/a.t", "RUN: rec B\n")
        res = case.lit("v")
        case.ensure(res.rc != 0, "a broken configuration has to fail the run", res)
        check_events(case, [], res)
        case.evaluated("broken local configuration %d" % case.index)

def hazards(case):
    """Tests change the files of the run while it goes on: every other test is run and reported as what it is"""
    rng = case.rng
    helpers(case)
    # destructive commands only ever reach what is in the directory of this case
    case.helper("hit", 'case "$2" in *..*) exit 0;; "$VDIR"/*) ;; *) exit 0;; esac\ncase $1 in\n'
                'gone) rm -f -- "$2";;\nempty) : > "$2";;\nnoise) printf "\\377\\376" > "$2";;\ndir) rm -f -- "$2" && mkdir "$2";;\n'
                'noexec) chmod a-x "$2";;\ndangling) ln -sf nowhere-at-all "$2";;\nother) printf "RUN: rec %s 7\\nRUN: false\\n" "$3" > "$2";;\nesac\nexit 0\n')
    fmt = rng.choice(["shtest", "shtest", "executable"])
    def script(*cmds):
        return "".join("RUN: %s\n" % c for c in cmds) if fmt == "shtest" else "#!/bin/sh\n" + "\n".join(cmds) + "\n"
    s = Suite("h", "h", fmt=fmt)
    n, k = rng.randint(2, 8), rng.randint(1, 4)
    for i in range(n):
        s.tests["%s%d.t" % (rng.choice(["a", "m", "z", "d/x"]), i)] = shell_test(rng, "T%d" % i, sleep=.02) if fmt == "shtest" else exec_test(rng, "T%d" % i)
    victims, dead = {}, []
    for i in range(k):
        v, name = T("V%d" % i), "%s%d.t" % (rng.choice(["b", "n", "y", "d/w"]), 50 + i)
        how = rng.choice(["gone", "empty", "noise", "dir", "dangling", "other"] if fmt == "shtest" else ["gone", "dir", "dangling", "noexec"])
        v.content, v.status, v.mode = script("rec V%d 0" % i), None, 0o755
        s.tests[name] = v
        victims[name] = (v, how)
        t = T("K%d" % i)
        full = os.path.join(case.root, "h", name)
        t.content, t.events, t.status = script("rec K%d 0" % i, "hit %s '%s' V%d" % (how, full, i), "rec K%d 1" % i), ["K%d\x1f0" % i, "K%d\x1f1" % i], "PASS"
        t.mode = 0o755
        s.tests["%s%d.t" % (rng.choice(["c", "k", "d/v"]), 80 + i)] = t
    # and one which removes itself, or the configuration of the suite
    own = T("S")
    what = rng.choice(["s.t", "lit.suite.toml"])
    own.content, own.events, own.status = script("rec S 0", "hit gone '%s'" % os.path.join(case.root, "h", what), "rec S 1"), ["S\x1f0", "S\x1f1"], "PASS"
    own.mode = 0o755
    s.tests["s.t"] = own
    s.write(case)
    # (an executable script may vanish between its start and its being read)
    j = rng.choice([1, 1, 2, 8]) if fmt == "shtest" else 1
    res = case.lit("-j%d" % j, "h")
    ran = set(case.events())
    expected = {}
    for name, t in s.tests.items():
        if name in victims:
            v, how = victims[name]
            if "V%s\x1f0" % v.id[1:] in ran:
                # before it was hit
                v.events, v.status = ["%s\x1f0" % v.id], "PASS"
            elif how == "other" and "%s\x1f7" % v.id in ran:
                v.events, v.status = ["%s\x1f7" % v.id], "FAIL"
            else:
                v.status = "UNRESOLVED"
                case.ensure(how != "other" or j > 1, "a test which was rewritten before it ran was not run", res)
            case.count("tests hit while they wait: %s %s" % (how, v.status))
        expected["h::" + name] = t.status
    check_report(case, res, expected)
    check_events(case, [(t.id, t.events) for t in s.tests.values()], res)
    case.evaluated((fmt, j, what, tuple(sorted((t.id, t.content) for t in s.tests.values()))))

STREAMS = [("hazards", 60, 600, hazards), ("mix", 150, 1500, mix), ("alone", 56, 560, alone), ("commands", 24, 120, commands), ("codes", 16, 32, codes), ("executable", 30, 300, executable), ("shells", 24, 240, shells), ("broken", 27, 180, broken)]
