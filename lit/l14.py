from base import *
from model import *

RULE = ("One case is a suite of tests whose commands, features, mistakes and ends are known, run with the output options; what the details of every test say is compared with it: the commands executed, in order, with the lines "
        "they come from and the text after substitution, what each wrote, the exit status, the time limit, the features missing or unsupported, the place of the mistake; and the counts and percentages of the summary. "
        "Non-trivial: tests with details, by content and options.")
ASSUMPTIONS = ["the trace of the shell (lines that begin with +) is not judged", "where a command continues on other lines, blanks are not compared"]

HEAD = "Command Output (%s) ----"
RULER = "-" * 28

def blocks(case, res, tests):
    """name -> (tag, lines). The names and tags are looked for in the lines outside of the sections only"""
    out, cur, inside = {}, None, False
    for l in res.out.split("\n"):
        if not inside:
            m = TAG_RE.match(l)
            if m and m.group(2) in tests:
                cur = m.group(2)
                case.ensure(cur not in out, "%s is reported twice" % cur, res)
                out[cur] = (m.group(1), [])
                continue
            if GROUP_RE.match(l) or l.startswith("Total Discovered Tests: "):
                break
        if cur is None:
            case.ensure(l == "", "a line which belongs to no test: %r" % l, res)
            continue
        out[cur][1].append(l)
        if l in (HEAD % "stdout", HEAD % "stderr"):
            inside = True
        elif l == RULER:
            inside = False
    return out

def sections(case, name, body, res):
    got, rest, cur = {}, [], None
    for l in body:
        if cur is None:
            if l in (HEAD % "stdout", HEAD % "stderr"):
                cur = l.split("(")[1].split(")")[0]
                case.ensure(cur not in got, "two sections for the %s of %s" % (cur, name), res)
                got[cur] = []
            else:
                rest.append(l)
        elif l == RULER:
            cur = None
        else:
            got[cur].append(l)
    case.ensure(cur is None, "the details of %s end within the %s" % (name, cur), res)
    return {k: "\n".join(v) for k, v in got.items()}, rest

def percentages(case, res):
    seen = [(int(m.group(2)), m.group(3)) for m in (COUNT_RE.match(l) for l in res.out.split("\n")) if m]
    total = sum(n for n, _ in seen)
    for n, p in seen:
        case.ensure(abs(float(p) - 100 * n / total) <= .0051, "%d of %d tests are %s%%" % (n, total, p), res)
    case.count("percentages compared", len(seen))

SAID = ["\\n", "\\t", "\\c", "\\\\", "\\0101", "\\101", "\\x41", "\\", "%%", "%", "$HOME", "${X}", "`id`", "$(id)", "\"", "*", "?", "#", "!", "é", "日本", "😀", "a", "b c", "  ", "|", "&", ";", "&&", "<", ">", "{", "}", "{}", "~", "=", "-n", "-e", "^", "[a]", "RUN at line 7: x", "Exit Code: 9", "%d", "%s", "PASS: z"]

def said(rng):
    """A text within simple quotes of a RUN line: as written, and as it is executed"""
    w, e = "", ""
    for _ in range(rng.randint(1, 6)):
        p = rng.choice(SAID)
        if p in ("%s", "%d", "%"):
            p = "%" + p if p != "%" else "%%"
        if p == "%%" or p.startswith("%%"):
            w, e = w + p, e + p[1:]
        else:
            w, e = w + p, e + p
    return w, e

def payload(rng, id, big):
    """What a command writes: text whose lines never begin like a trace"""
    n = rng.choice([0, 1, 1, 2, 5, 40])
    lines = ["%s%s" % (rng.choice(["", "", " ", "  ", id]), rng.choice(["text %d" % rng.randint(0, 99), "é日本😀", "\\n\\t", "PASS: out::t0.t", "a\tb", "x" * rng.choice([1, 79, 300, 5000]), "\u2028|", "{}", "%s", "a \u0301", "\x1b[1mbold\x1b[0m"])) for _ in range(n)]
    data = "".join(l + "\n" for l in lines).encode()
    if rng.random() < .1:
        data += b"\xff\xfe bytes \xc3\n"
    if big and rng.random() < .5:
        data += (id.encode() + b" line of a large output\n") * rng.choice([10000, 60000, 120000])
    return data

def step(rng, case, t, k, number, last, big, defs):
    """A command of a test: its directive lines, what is shown for it"""
    out, err = payload(rng, t.id, big), payload(rng, t.id, big)
    if last and rng.random() < .3:
        out = out[:-1] if out.endswith(b"\n") else out
    for what, data in (("out", out), ("err", err)):
        with open(os.path.join(case.dir, "pay", "%s-%d.%s" % (t.id, k, what)), "wb") as f:
            f.write(data)
    cmd = shown = "emit %s %d" % (t.id, k)
    for _ in range(rng.choice([0, 0, 1, 2])):
        form = rng.randint(0, 5)
        if form == 0:
            w, e = said(rng)
            cmd, shown = ": '%s'; %s" % (w, cmd), ": '%s'; %s" % (e, shown)
        elif form == 1:
            w, e = said(rng)
            cmd, shown = "%s && : '%s'" % (cmd, w), "%s && : '%s'" % (shown, e)
        elif form == 2:
            cmd, shown = ": %s; " + cmd, ": %s; %s" % (t.path_of(), shown)
        elif form == 3:
            cmd, shown = ": %%(line); %s" % cmd, ": %d; %s" % (number, shown)
        elif form == 4 and defs:
            name, value = rng.choice(defs)
            cmd, shown = ": %%{%s}; %s" % (name, cmd), ": %s; %s" % (value, shown)
        else:
            cmd, shown = "( %s )" % cmd, "( %s )" % shown
    lead = rng.choice(COMMENTS)
    lines = [lead + "RUN: " + cmd]
    if "%(line" not in cmd and "'" not in cmd and rng.random() < .25:
        lines = [lead + "RUN: " + cmd.split(" ")[0] + " \\"] + [lead + "RUN: " + w + (" \\" if i < len(cmd.split(" ")) - 2 else "") for i, w in enumerate(cmd.split(" ")[1:])]
    return lines, shown, out, err

class D(T):
    def path_of(self):
        return self.path

def commands(case):
    """Details show what was executed, from which line, what it wrote, and how it ended"""
    rng = case.rng
    helpers(case)
    os.mkdir(os.path.join(case.dir, "pay"))
    case.helper("emit", 'cat "$VDIR/pay/$1-$2.out"; cat "$VDIR/pay/$1-$2.err" >&2\n')
    big = rng.random() < .12
    slow = rng.random() < .12
    shell = rng.choice(["", "", "", "shell = \"bash\"\n", "pipefail = false\n"])
    s = Suite("out", "out", patterns=["*.t"], fmt_extra=shell)
    xs = Suite("exe", "exe", patterns=["*.t"], fmt="executable")
    tests = {}
    for i in range(rng.randint(2, 9)):
        t = D("Z%dZ" % i)
        rel = "%s%d.t" % (rng.choice(["t", "d/t", "é"]), i)
        t.path = os.path.join(case.root, "out", rel)
        t.code, t.status, t.shown = 0, "PASS", []
        lines, defs = [], []
        for n in range(rng.choice([0, 0, 1, 2])):
            defs.append(("v%d" % n, rng.choice(["one", "'a b'", "\"x\"", "é", "'c\\nd'"])))
            lines.append("DEFINE: %%{%s}=%s" % defs[-1])
        end = rng.choice(["pass", "pass", "exit", "exit", "kill", "flaky"] + (["hang"] * 2 if slow else []))
        if end == "flaky":
            t.fails, t.allowed = rng.randint(1, 3), rng.randint(1, 3)
            lines.append("ALLOWED_RETRIES: %d" % t.allowed)
        n = rng.choice([1, 2, 3, 4, 1, 2, 3, 4, 12, 25])
        for k in range(n):
            lines += [""] * rng.choice([0, 0, 1, 3])
            if rng.random() < .2:
                lines.append("only a comment, RUN is not meant")
            ls, shown, out, err = step(rng, case, t, k, len(lines) + 1, k == n - 1 and end == "pass", big, defs)
            t.shown.append((len(lines) + 1, shown, len(ls) > 1, out, err))
            lines += ls
        def plain(cmd):
            t.shown.append((len(lines) + 1, cmd, False, b"", b""))
            lines.append("RUN: " + cmd)
        if end == "exit":
            t.code, t.status = rng.choice([1, 2, 3, 77, 126, 127, 128, 137, 255]), "FAIL"
            plain("exit %d" % t.code)
        elif end == "kill":
            t.code, t.status = None, "UNRESOLVED"
            plain("kill -9 $$")
        elif end == "hang":
            t.code, t.status = None, "TIMEOUT"
            plain("sleep 60")
        elif end == "flaky":
            plain("flaky %s %d" % (t.id, t.fails))
            t.code, t.status = (0, "FLAKYPASS") if t.fails <= t.allowed else (1, "FAIL")
        if t.code != 0 or end == "flaky" and t.status == "FAIL":
            lines.append("RUN: emit %s never" % t.id)
        if t.status in ("PASS", "FAIL", "FLAKYPASS") and rng.random() < .25:
            lines.append("XFAIL: *")
            t.status = "XFAIL" if t.status == "FAIL" else "XPASS"
        t.content = "\n".join(lines) + "\n"
        s.tests[rel] = t
        tests["out::" + rel] = t
    s.write(case)
    if rng.random() < .4:
        for i in range(rng.randint(1, 4)):
            t = D("X%dX" % i)
            t.out, t.err = payload(rng, t.id, big), payload(rng, t.id, big)
            t.code, t.status = rng.choice([(0, "PASS"), (0, "PASS"), (1, "FAIL"), (9, "FAIL"), (255, "FAIL"), (None, "UNRESOLVED")])
            for what, data in (("out", t.out), ("err", t.err)):
                with open(os.path.join(case.dir, "pay", "%s-0.%s" % (t.id, what)), "wb") as f:
                    f.write(data)
            t.content, t.mode = "#!/bin/sh\nemit %s 0\n%s\n" % (t.id, "kill -9 $$" if t.code is None else "exit %d" % t.code), 0o755
            xs.tests["e%d.t" % i] = t
            tests["exe::e%d.t" % i] = t
        xs.write(case)
    mode = rng.choice([["-a"], ["-a"], ["-a", "-q"], ["-v"], ["-v"], ["-q", "-v"], ["-a", "-v"], [], ["-q"], ["--show-all"], ["--verbose", "--quiet"]])
    every = "-a" in mode or "--show-all" in mode
    verbose = every or "-v" in mode or "--verbose" in mode
    quiet = "-q" in mode or "--quiet" in mode
    limit = 2
    case.note("%s %s" % (mode, [(n, t.status) for n, t in tests.items()]))
    res = case.lit(*mode, "-j%d" % rng.choice([1, 4, 16]), *(["--timeout", str(limit)] if slow else []), "out", *(["exe"] if xs.tests else []))
    got = blocks(case, res, tests)
    for name, t in tests.items():
        fails = t.status in FAILING
        if not (fails or every or not quiet):
            case.ensure(name not in got, "%s is reported despite --quiet" % name, res)
            continue
        case.ensure(name in got, "%s is not reported" % name, res)
        tag, body = got[name]
        if tag == "TIMEOUT" != t.status:
            raise Inconclusive("%s reached the limit" % name)
        case.ensure(tag == t.status, "%s is %s instead of %s" % (name, tag, t.status), res)
        if not (every or fails and verbose):
            case.ensure(not any(body), "details of %s are shown although they were not asked for" % name, "\n".join(body)[:2000])
            case.evaluated()
            continue
        secs, rest = sections(case, name, body, res)
        rest = "\n".join(rest)
        if t.id.startswith("X"):
            out, err = t.out, t.err
            wanterr = err.decode("utf-8", "replace")
        else:
            out = b"".join(x[3] for x in t.shown)
            wanterr = None
        want = out.decode("utf-8", "replace")
        case.ensure(secs.get("stdout", "") == want, "the standard output shown of %s is not what it wrote (%d instead of %d characters)" % (name, len(secs.get("stdout", "")), len(want)), t.content, "got: " + secs.get("stdout", "")[:2000], "want: " + want[:2000])
        goterr = secs.get("stderr", "")
        if wanterr is not None:
            case.ensure(goterr == wanterr, "the standard error shown of %s is not what it wrote (%d instead of %d characters)" % (name, len(goterr), len(wanterr)), t.content, "got: " + goterr[:2000], "want: " + wanterr[:2000])
        else:
            # without the trace of the shell
            lines = [l for l in goterr.split("\n") if not l.startswith("+")]
            flat = re.sub(r"[ \n]+", " ", "\n".join(lines).replace("\\\n", " ")).strip()
            want, wantflat = [], ""
            for line, cmd, split, _, err in t.shown:
                want += ["RUN at line %d: %s" % (line, cmd)] + err.decode("utf-8", "replace").split("\n")[:-1]
            want.append("")
            if any(x[2] for x in t.shown):
                wantflat = re.sub(r"[ \n]+", " ", "\n".join(want)).strip()
                same = flat == wantflat
            else:
                same = lines == want
            case.ensure(same, "what is shown of the commands of %s is not what was executed: %s" % (name, json.dumps(multiset_diff(want, lines), ensure_ascii=False)[:1500]), t.content, "got:\n" + "\n".join(lines)[:2500], "want:\n" + "\n".join(want)[:2500])
            case.count("commands compared", len(t.shown))
        codes = re.findall(r"^Exit Code: (.*)$", rest, re.M)
        wantc = [] if t.code == 0 else ["N/A" if t.code is None else "%d" % t.code]
        case.ensure(codes == wantc, "the exit code shown of %s is %r instead of %r" % (name, codes, wantc), rest[:500])
        if t.status == "TIMEOUT":
            m = re.search(r"Reached timeout after (\d+)s", rest)
            case.ensure(m and limit <= int(m.group(1)) <= limit + 15, "the time limit of %s is not said" % name, rest[:500])
        else:
            case.ensure("Reached timeout" not in rest, "a time limit is said for %s" % name, rest[:500])
            m = re.search(r"^Elapsed: (?:(\d+)ms|(\d+\.\d+)s)$", rest, re.M)
            case.ensure(m is not None, "the time that %s took is not said" % name, rest[:500])
            took = int(m.group(1)) / 1000 if m.group(1) else float(m.group(2))
            case.ensure(took <= res.wall + .01, "%s is said to have taken %.3f s of a run of %.3f s" % (name, took, res.wall), rest[:500])
        case.count("details compared")
        case.evaluated((t.content, tuple(mode)))
    percentages(case, res)

HAVE = ["native", "system-linux", "have-1", "have-2", "have.3"]
def condition(rng, names, want):
    """A condition over names of its own, and whether it holds: (text, the names that it uses)"""
    yes, no = rng.choice(HAVE), names.pop()
    used = {no}
    if want:
        text = rng.choice(["{y}", "!{n}", "{y} && !{n}", "{n} || {y}", "!({n} && {y})", "({y})"])
    else:
        text = rng.choice(["{n}", "{n}", "{y} && {n}", "{n} || !{y}", "({n})", "{n} && !{y}"])
    return text.format(y=yes, n=no), used

def reasons(case):
    """Of a test that was not run, the details say why"""
    rng = case.rng
    helpers(case)
    s = Suite("why", "why", patterns=["*.t"], extra='available_features = %s\n' % toml_list(HAVE[2:]), fmt="shtest")
    kinds = {}
    for i in range(rng.randint(3, 12)):
        id = "W%dW" % i
        t = D(id)
        names = ["u%d-%s" % (k, id) for k in range(12)]
        lines = ["RUN: rec %s never" % id]
        t.mention, t.silent, t.where = set(), set(), None
        def add(text, kw=None):
            lines.insert(rng.randint(0, len(lines)), rng.choice(COMMENTS) + text)
        kind = rng.choice(["requires", "requires", "unsupported", "unsupported", "mistake", "mistake", "mistake", "norun", "unknown"])
        if kind == "requires":
            t.status = "UNSUPPORTED"
            conds = [(condition(rng, names, w), w) for w in [False] + [rng.random() < .5 for _ in range(rng.randint(0, 4))]]
            rng.shuffle(conds)
            for (_, used), w in conds:
                (t.silent if w else t.mention).update(used)
            k = rng.randint(0, len(conds))
            for part in (conds[:k], conds[k:]):
                if part:
                    add("REQUIRES: " + ", ".join(c[0][0] for c in part))
        elif kind == "unsupported":
            t.status = "UNSUPPORTED"
            on = rng.sample(HAVE, rng.randint(1, 3))
            off = [names.pop() for _ in range(rng.randint(0, 3))]
            conds = on + off
            rng.shuffle(conds)
            t.mention, t.silent = set(on), set(off) | set(HAVE) - set(on)
            k = rng.randint(0, len(conds))
            for part in (conds[:k], conds[k:]):
                if part:
                    add("UNSUPPORTED: " + ", ".join(part))
        else:
            t.status = "UNRESOLVED"
            if kind == "norun":
                lines = ["no command here", "not one"]
            elif kind == "unknown":
                lines = lines + ["RUN: echo " + rng.choice(["%(line", "%{nothing-of-" + id + "}"])]
                t.status = None
            else:
                bad = rng.choice(["REQUIRES: (", "UNSUPPORTED: a &&", "XFAIL: a b", "REQUIRES: || a", "ALLOWED_RETRIES: many", "ALLOWED_RETRIES: -1", "DEFINE: x = y", "REDEFINE: %%{q%d} = y" % i, "DEFINE: %%{a%d}" % i, "XFAIL: {{(}}", "UNSUPPORTED: !"])
                for _ in range(rng.randint(0, 5)):
                    lines.insert(0, rng.choice(["", "text", "# comment", "é日本"]))
                if bad.startswith("ALLOWED") and rng.random() < .3:
                    add("REQUIRES: native")
                add(bad)
                t.where = 1 + next(k for k, l in enumerate(lines) if l.endswith(bad))
        if t.status is None:
            continue
        t.kind = kind
        t.content = "\n".join(lines) + "\n"
        s.tests["w%d.t" % i] = t
    if not s.tests:
        raise Inconclusive("no test")
    s.write(case)
    tests = {s.full(p): t for p, t in s.tests.items()}
    res = case.lit("-a", *rng.choice([[], ["-q"], [] if any("REDEFINE" in t.content for t in tests.values()) else ["--no-execute"], ["-j4"]]), "why")
    case.note("%s" % [(n, t.kind, t.content) for n, t in tests.items()])
    case.ensure(not case.events(), "a test was executed", res)
    got = blocks(case, res, tests)
    for name, t in tests.items():
        case.ensure(name in got, "%s is not reported" % name, res)
        tag, body = got[name]
        case.ensure(tag == t.status, "%s is %s instead of %s" % (name, tag, t.status), t.content, res)
        text = "\n".join(body)
        if t.status == "UNSUPPORTED":
            words = set(re.findall(r"[A-Za-z0-9._-]+", text))
            case.ensure(t.mention <= words, "the details of %s do not mention the features that made it unsupported: %s" % (name, sorted(t.mention - words)), t.content, text)
            case.ensure(not (t.silent & words), "the details of %s mention features that did not make it unsupported: %s" % (name, sorted(t.silent & words)), t.content, text)
            case.count("reasons for unsupported tests compared")
        else:
            secs, rest = sections(case, name, body, res)
            path = os.path.join(case.root, "why", name.split("::")[1])
            case.ensure(path in text, "the details of %s do not name the file of the test" % name, t.content, text)
            if t.where:
                at = re.findall(re.escape(path) + r":(\d+):\d+", text)
                case.ensure(at == [str(t.where)], "the details of %s say that the mistake is on line %s, but it is on line %d" % (name, at, t.where), t.content, text)
            elif t.kind == "norun":
                case.ensure("RUN" in text, "the details of %s do not say what is missing" % name, t.content, text)
            case.count("places of mistakes compared")
        for other in tests.values():
            case.ensure(other is t or other.id not in text, "the details of %s are about another test" % name, res)
        case.evaluated(t.content)
    percentages(case, res)

def many(case):
    """Hundreds of tests: what is said of them in the summary"""
    rng = case.rng
    kinds = {"PASS": "RUN: true\n", "FAIL": "RUN: false\n", "UNSUPPORTED": "REQUIRES: nothing-like-it\nRUN: false\n", "XFAIL": "XFAIL: *\nRUN: false\n", "XPASS": "XFAIL: *\nRUN: true\n"}
    some = rng.sample(sorted(kinds), rng.randint(1, 3))
    weights = [rng.choice([1, 1, 3, 40]) for _ in some]
    n = rng.choice([99, 100, 130, 256, 257, 300, 333, 400, 520])
    case.write("n/lit.suite.toml", "name = \"n\"\npatterns = [\"*.t\"]\n")
    want = {}
    for i in range(n):
        k = rng.choices(some, weights)[0]
        want[k] = want.get(k, 0) + 1
        case.write("n/%d.t" % i, kinds[k])
    res = case.lit("-j%d" % rng.choice([4, 8]), *rng.choice([[], ["-q"]]), "n")
    rep = Report(res)
    case.ensure(rep.counts == {STATUS[k]: v for k, v in want.items()}, "the summary counts %s instead of %s" % (rep.counts, want), res)
    case.ensure(rep.total == n, "%s tests are said to be discovered, and there are %d" % (rep.total, n), res)
    percentages(case, res)
    case.evaluated((n, sorted(want.items())))

STREAMS = [("many", 5, 50, many), ("commands", 120, 1500, commands, 1), ("reasons", 90, 1000, reasons)]
