"""Generators of tests and suites whose outcome is known."""
import os, re
from base import *

REC = 'IFS=$(printf "\\037")\nprintf "%s\\n" "$*" >> "$VLOG"\n'

def helpers(case):
    """`rec ARGS` logs its arguments; `recf ARGS` logs them and fails; `flaky ID K` logs and fails its first K times"""
    case.helper("rec", REC)
    case.helper("recf", REC + "exit 1\n")
    case.helper("flaky", REC + 'f="$VDIR/flaky-$1"; n=$(cat "$f" 2>/dev/null || echo 0); echo $((n+1)) > "$f"; [ "$n" -ge "$2" ]\n')

# commands by what they do to a test: (text, outcome); None: the next command runs, 'F': fails, 'U': killed by a signal
COMMANDS = [
    ("true", None), (":", None), ("! false", None), ("false || true", None), ("false; true", None), ("true | true", None),
    ("false | true", None), ("test 1 -eq 1", None), ("not false", None), ("not sh -c 'exit 4'", None), ("echo a | not grep b", None),
    ("(exit 0)", None), ("if false; then exit 1; fi", None), ("sh -c 'kill -9 $$' || true", None), ("not --crash sh -c 'kill -9 $$'", None),
    ("echo hello >&2", None), ("sleep 0.01", None), ("X=1; test $X = 1", None), ("not not true", None) if False else ("true && true", None),
    ("echo one two | filecheck '%s' --check-prefix=GOOD", None), ("not filecheck '%s' --check-prefix=GOOD < /dev/null", None),
    ("false", "F"), ("exit 3", "F"), ("(exit 7)", "F"), ("sh -c 'exit 255'", "F"), ("sh -c 'kill -9 $$'", "F"), ("true | false", "F"),
    ("! true", "F"), ("true; false", "F"), ("true && false", "F"), ("no-such-command-here", "F"), ("test 1 -eq 2", "F"), ("not true", "F"),
    ("not sh -c 'kill -9 $$'", "F"), ("not --crash false", "F"), ("echo a b | not grep b", "F"), ("exit 127", "F"), ("exit 128", "F"), ("return 5", "F") if False else ("exit 200", "F"),
    ("echo three | filecheck '%s' --check-prefix=GOOD", "F"), ("echo one two | not filecheck '%s' --check-prefix=GOOD", "F"),
    ("cat < /nonexistent/file", "F"),
    ("kill -9 $$", "U"), ("kill -TERM $$", "U"), ("kill -SEGV $$", "U"), ("kill -ABRT $$; sleep 5", "U"),
]
GOOD = [c for c in COMMANDS if c[1] is None]
BAD = [c for c in COMMANDS if c[1] == "F"]
KILL = [c for c in COMMANDS if c[1] == "U"]
COMMENTS = ["# ", "// ", "; ", "", "  ", "-- ", "/* x */ ", "<!-- ", "#", "REM\t", "héllo ", "\t"]

class T:
    """A shell test: its text, the events it has to log, and its result"""
    def __init__(self, id):
        self.id, self.content, self.events, self.status, self.malformed = id, "", [], None, False

def shell_test(rng, id, only=None, sleep=0.0, retries=True):
    """only: restrict to a status"""
    t = T(id)
    status = only or rng.choices(["PASS", "FAIL", "XFAIL", "XPASS", "UNSUPPORTED", "UNRESOLVED", "FLAKYPASS"], [8, 4, 2, 2, 2, 2, 2 if retries else 0])[0]
    lines, t.status = [], status
    def run(cmd):
        lines.append("RUN: " + cmd)
    def ev(step):
        t.events.append("%s\x1f%d" % (id, step))
    n = rng.randint(1, 4) if rng.random() < .93 else rng.randint(8, 36)
    nap = " && sleep %.3f" % (rng.random() * sleep) if sleep else ""
    xf = rng.choice(["*", "native", "system-linux, nothing", "!nothing", "nothing || native", "target={{.*linux.*}}"])
    noxf = rng.choice([None, None, "nothing", "!native", "native && nothing"])
    def good(first, count):
        for i in range(first, first + count):
            run("rec %s %d%s" % (id, i, nap if i == 0 else ""))
            ev(i)
            if rng.random() < .5:
                run(rng.choice(GOOD)[0])
    extra = []
    if status == "XPASS" and retries and rng.random() < .35:
        # it passes at last, which was not expected
        fails = rng.randint(1, 2)
        good(0, n)
        run("flaky %s %d" % (id, fails))
        t.events = (t.events + ["%s\x1f%d" % (id, fails)]) * (fails + 1)
        extra += ["XFAIL: " + xf, "ALLOWED_RETRIES: %d" % (fails + rng.choice([0, 0, 2]))]
    elif status in ("PASS", "XPASS"):
        good(0, n)
        if status == "XPASS":
            extra.append("XFAIL: " + xf)
        elif noxf:
            extra.append("XFAIL: " + noxf)
    elif status in ("FAIL", "XFAIL"):
        allowed = rng.choice([0, 0, 0, 1, 2]) if retries else 0
        good(0, n)
        run(rng.choice(BAD)[0])
        run("rec %s never" % id)
        t.events *= allowed + 1
        if allowed:
            extra.append("ALLOWED_RETRIES: %d" % allowed)
        if status == "XFAIL":
            extra.append("XFAIL: " + xf)
        elif noxf:
            extra.append("XFAIL: " + noxf)
    elif status == "FLAKYPASS":
        fails = rng.randint(1, 3)
        good(0, n)
        before = list(t.events)
        run("flaky %s %d" % (id, fails))
        t.events = (before + ["%s\x1f%d" % (id, fails)]) * (fails + 1)
        run("rec %s end" % id)
        t.events.append("%s\x1fend" % id)
        extra.append("ALLOWED_RETRIES: %d" % (fails + rng.choice([0, 0, 1, 5])))
    elif status == "UNSUPPORTED":
        run("rec %s never" % id)
        extra.append(rng.choice(["REQUIRES: nothing", "UNSUPPORTED: *", "UNSUPPORTED: native", "REQUIRES: native, nothing", "UNSUPPORTED: nothing, system-linux"]))
        if rng.random() < .3:
            extra.append("XFAIL: *")
    elif status == "UNRESOLVED":
        how = rng.randint(0, 5)
        if how == 0:
            t.content, t.malformed = "nothing to do here\n", True
            return t
        if how == 1:
            good(0, 1)
            run(rng.choice(KILL)[0])
            run("rec %s never" % id)
            extra.append(rng.choice(["XFAIL: *", "ALLOWED_RETRIES: 2", ""]))
        else:
            run("rec %s never" % id)
            t.events, t.malformed = [], how != 5
            extra.append(["REQUIRES: (", "ALLOWED_RETRIES: many", "DEFINE: x = y", "REDEFINE: %{unknown} = y"][how - 2])
    for e in extra:
        lines.insert(rng.randint(0, len(lines)) if e.split(":")[0] not in ("DEFINE", "REDEFINE") else 0, e)
    out = []
    for l in lines:
        if rng.random() < .15:
            out.append(rng.choice(["", "some text", "RUN is not a directive", "run: false", "%s", "exit 1"]))
        out.append(rng.choice(COMMENTS) + l if l else "")
    out.append("GOOD: one\x20two")
    t.content = "\n".join(out) + rng.choice(["\n", "", "\n\n"])
    return t

def exec_test(rng, id, only=None):
    t = T(id)
    t.status = only or rng.choice(["PASS", "PASS", "FAIL", "UNRESOLVED"])
    t.mode = 0o755
    body = '#!/bin/sh\nprintf "%s\\037x\\n" "' + id + '" >> "$VLOG"\n'
    t.events = [id + "\x1fx"]
    if t.status == "FAIL":
        body += "exit %d\n" % rng.choice([1, 2, 77, 127, 255])
    elif t.status == "UNRESOLVED":
        if rng.random() < .5:
            body += "kill -9 $$\n"
        else:
            t.mode, t.events = 0o644, []
    t.content = body
    return t

class Suite:
    def __init__(self, name, dir, patterns=("*.t",), extra="", fmt="shtest", fmt_extra=""):
        self.name, self.dir, self.patterns, self.extra, self.fmt, self.fmt_extra = name, dir, patterns, extra, fmt, fmt_extra
        self.tests = {}
    def toml(self):
        s = "name = %s\npatterns = %s\n%s" % (toml_str(self.name), toml_list(self.patterns), self.extra)
        if self.fmt:
            s += "\n[format.%s]\n%s" % (self.fmt, self.fmt_extra)
        return s
    def full(self, path):
        return "%s::%s" % (self.name, path)
    def write(self, case):
        case.write(os.path.join(self.dir, "lit.suite.toml"), self.toml())
        for path, t in self.tests.items():
            case.write(os.path.join(self.dir, path), t.content, getattr(t, "mode", None))

def name_word(rng):
    return rng.choice(["a", "b", "test", "x1", "long-name", "UPPER", "with space", "ünï", "dot.dot", "p+q", "(1)", "0", "a%s", "$HOME", "é", "_"])

def check_events(case, tests, res):
    """Every test logged exactly what it had to, in its order. tests: iterable of (id, events)"""
    by = collections.defaultdict(list)
    log = case.events()
    for line in log:
        by[line.split("\x1f")[0]].append(line)
    for id, events in tests:
        got = by.pop(id, [])
        if got != list(events):
            case.fail("test %s executed %r instead of %r" % (id, got, list(events)), res)
    case.ensure(not by, "unexpected executions: %r" % dict(by), res)
    case.count("logged executions", len(log))
    return log
