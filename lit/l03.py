from base import *
from model import *

RULE = ("One case is a suite of generated test files that mix RUN lines (also continued, in any comment style, with LF or CRLF), other directives and ordinary text, well formed or broken in one place; "
        "every command logs its arguments, and the log and the status are compared with what the file says. Non-trivial: every test file with a RUN line, by content.")
ASSUMPTIONS = ["the commands are words without shell syntax except quotes and, at their end, comments and commands which do nothing, so that their arguments are known"]

WORDS = ["a", "b2", "--flag", "x=y", "'two words'", "'it is #1'", "RUN", "\"q $((1+1))\"", "'RUN'", "é", "-", "'*'", "'a  b'", "XFAIL", "END", "%(line)", "%(line+1)", "%(line - 1)", "%(line  +  10)", "%(line+100)", "%(line +  12345)", "'L%(line)L%(line)'", "'%%(x)'", "'%%%%'",
         "'f\x0cf'", "'v\x0bv'", "'n\x85n'", "'l\u2028l'", "'\x01\x02'", "'\ufeff'", "'e\u0301'", "'\x7f\x1b[0m'", "'nb\u00a0sp'", "'\x0c'", "'\u2029 '", "'😀'"]
TEXT = ["", "some text", "RUN rec T never", "run: recf T never", "RUN : recf T never", "Run: recf T never", "exit 1", "R UN: false", "\\", "text \\", "REQUIRES nothing", "requires: nothing",
        "XFAIL", "XFAIL : *", "END", "end.", "%s %t", "CHECK: x", "  ", "(", "'", "`false`", "$(false)", "UNSUPPORTED", "ALLOWED_RETRIES 3", "日本語"]

def words(text, line):
    """The arguments that the shell makes of a (joined) command text"""
    text = re.sub(r"%\(line( *[+-] *\d+)?\)", lambda m: str(line + int((m.group(1) or "+0").replace(" ", ""))), text)
    return text

class Script:
    """Builds a test file and what it has to log"""
    def __init__(self, rng, id):
        self.rng, self.id, self.lines, self.commands = rng, id, [], []
        self.fails_at = None
    def prefix(self):
        return self.rng.choice(COMMENTS)
    def text(self):
        for _ in range(self.rng.choice([0, 0, 1, 1, 2])):
            self.lines.append(self.rng.choice(TEXT))
    def directive(self, d):
        self.lines.append(self.prefix() + d)
    def run(self, fail=False):
        rng = self.rng
        step = len(self.commands)
        cmd = ["recf" if fail else "rec", self.id, str(step)]
        ws = [rng.choice(WORDS) for _ in range(rng.randint(0, 5))]
        parts = cmd + ws
        # split into physical lines, between words or within one
        lines, cur = [], ""
        args = []
        for i, w in enumerate(parts):
            n = len(self.lines) + len(lines) + 1
            joined = False
            if i > 2 and rng.random() < .25:
                if rng.random() < .3 and w.isalnum() and len(w) > 1:
                    # in the middle of a word
                    lines.append(cur + rng.choice([" ", "  "]) + w[:1])
                    cur, joined = w[1:], True
                else:
                    if rng.random() < .15:
                        # a word which ends with a backslash
                        cur += rng.choice([" e\\\\", "  \\\\\\\\"])
                        args.append(re.search(r"\S+$", cur).group(0))
                    lines.append(cur + rng.choice(["", " "]))
                    cur = " " * rng.randint(1, 3) + w
                    n += 1
            else:
                cur += (rng.choice([" ", " ", "   ", "\t"]) if i else "") + w
            args.append(words(w, n))
        if rng.random() < .15:
            # what the shell makes nothing of
            cur += rng.choice([" # comment", " # it's", " #", " ;", " ; # \"", "  # } ; exit 1", " # RUN: x", " # %%", " && :", " && { :; }"])
        lines.append(cur)
        for k, l in enumerate(lines):
            last = k == len(lines) - 1
            sep = rng.choice(["", " ", "  "]) if k == 0 else ""
            self.lines.append(self.prefix() + "RUN:" + sep + l + ("" if last else "\\") + (rng.choice(["", "", " ", "\t "]) if last else ""))
        out = []
        for a in args[1:]:
            a = a.replace("%%", "%")
            if a.startswith("'"):
                a = a[1:-1]
            elif a.startswith('"'):
                a = a[1:-1].replace("$((1+1))", "2")
            elif a.endswith("\\"):
                a = a.replace("\\\\", "\\")
            out.append(a)
        self.commands.append("\x1f".join(out))
        if fail and self.fails_at is None:
            self.fails_at = step

def script(rng, id, allow_fail=True):
    s = Script(rng, id)
    n = rng.randint(1, 6) if rng.random() < .88 else rng.randint(7, 45)
    fails = rng.randint(0, n - 1) if allow_fail and rng.random() < .35 else -1
    for k in range(n):
        s.text()
        if rng.random() < .25:
            s.directive(rng.choice(["REQUIRES: native", "UNSUPPORTED: nothing", "REQUIRES: system-linux, native", "XFAIL: nothing"]))
        s.text()
        s.run(fail=k == fails)
    s.text()
    return s

def finish(s, t, rng, broken=False):
    if rng.random() < .15 and not broken:
        # nothing after END. counts, whatever it is
        s.lines.append(s.prefix() + rng.choice(["END.", "END. ", "END.\t"]))
        for _ in range(rng.randint(1, 3)):
            s.lines.append(rng.choice(["RUN: recf %s never" % s.id, "REQUIRES: (", "XFAIL: *", "ALLOWED_RETRIES: x", "text", "RUN: recf never \\"]))
    eol = rng.choice(["\n", "\n", "\n", "\r\n"])
    t.content = eol.join(s.lines) + (eol if rng.random() < .7 else "")
    if broken:
        t.events, t.status = [], "UNRESOLVED"
    else:
        last = s.fails_at
        t.events = s.commands if last is None else s.commands[:last + 1]
        t.status = "PASS" if last is None else "FAIL"

def well_formed(rng, id):
    t = T(id)
    s = script(rng, id)
    finish(s, t, rng)
    return t

BREAK = ["REQUIRES: (", "REQUIRES: a &&", "UNSUPPORTED: a b", "XFAIL: ", "XFAIL: native,", "REQUIRES: {{[}}", "ALLOWED_RETRIES: x", "ALLOWED_RETRIES: -1", "ALLOWED_RETRIES:", "ALLOWED_RETRIES: 1.5", "DEFINE: x = y", "DEFINE: %{a} y", "DEFINE: %{1a} = y",
         "DEFINE: %{} = y", "DEFINE: %{a b} = y", "REDEFINE: %{never_defined} = y", "DEFINE:", "REQUIRES: {{x", "XFAIL: !", "UNSUPPORTED: (native"]

def malformed(rng, id):
    t = T(id)
    s = script(rng, id, allow_fail=False)
    kind = rng.randint(0, 7)
    if kind <= 2:
        at = rng.choice([0, len(s.lines)])
        s.lines.insert(at, s.prefix() + rng.choice(BREAK))
        if at and s.lines[-2].endswith("\\"):
            s.lines.insert(at, "")
    elif kind == 3:
        s.lines.append("RUN: rec %s x \\" % id)          # nothing follows
    elif kind == 4:
        s.lines += ["RUN: rec %s x \\" % id, "no directive", "RUN: rec %s y" % id]
    elif kind == 5:
        s.lines += ["RUN: rec %s x \\" % id, rng.choice(["REQUIRES: native", "DEFINE: %{x} = 1", "XFAIL: *", "END."]), "RUN: rec %s y" % id]
    elif kind == 6:
        a, b = rng.choice([("ALLOWED_RETRIES: 1", "ALLOWED_RETRIES: 1"), ("DEFINE: %{x} = 1", "DEFINE: %{x} = 2")])
        s.lines = [a, b] + s.lines
    else:
        s.lines = [rng.choice([x for x in TEXT if x]) for _ in range(rng.randint(0, 5))] + rng.choice([[], ["END.", "RUN: rec %s x" % id], ["REQUIRES: native"]])
    finish(s, t, rng, broken=True)
    return t

def case_of(make, n):
    def run(case):
        rng = case.rng
        helpers(case)
        s = Suite("p", "p", patterns=["*.t"])
        for i in range(n):
            s.tests["t%d.t" % i] = make(rng, "T%d" % i)
        s.write(case)
        case.note(repr(s.tests["t0.t"].content))
        res = case.lit("-j%d" % rng.choice([1, 3]), "p")
        for p, t in s.tests.items():
            got = [e for e in case.events() if e.split("\x1f")[0] == t.id]
            if got != t.events:
                case.fail("%s executed %r instead of %r; its text is %r" % (p, got, t.events, t.content), res)
            case.evaluated(t.content.replace(t.id, "T"))
        try:
            check_report(case, res, {s.full(p): t.status for p, t in s.tests.items()})
        except Violation as v:
            case.fail(str(v), "\n".join("%s %s: %r" % (p, t.status, t.content) for p, t in s.tests.items()))
        check_events(case, [(t.id, t.events) for t in s.tests.values()], res)
    return run

STREAMS = [("script", 150, 1500, case_of(well_formed, 8)), ("malformed", 60, 600, case_of(malformed, 8)),
           ("both", 30, 300, case_of(lambda rng, id: (malformed if rng.random() < .4 else well_formed)(rng, id), 8))]
