from base import *
from model import *

RULE = ("One case is a set of suites, some sharing a working directory, with tests of equal names that run at the same time; each logs its temporary path, working directory, environment and input, keeps a file "
        "under its temporary path, and writes interleaved output. Paths are checked to be distinct, values to be its own, and rendered outputs to be complete and unmixed. Non-trivial: every test run along with others.")
ASSUMPTIONS = ["the working directory of a suite is shared by its tests, as configured", "the schedules are those the OS gives, spread by random delays and up to 32 workers"]

def shared(case):
    rng = case.rng
    case.helper("state", 'IFS=$(printf "\\037")\nprintf "%s\\n" "$*$IFS$(pwd)$IFS${MINE-unset}$IFS${LEAK-unset}$IFS$(cat)$IFS$(umask)" >> "$VLOG"\n')
    shared_dir = os.path.join(case.root, "work")
    os.mkdir(shared_dir)
    suites, want = [], {}
    n = 0
    for k in range(rng.randint(1, 4)):
        wd = rng.choice(["shared", "shared", "own", "temp"])
        s = Suite(rng.choice(["same", "same", "s%d" % k]), "s%d" % k)
        if wd == "shared":
            s.extra = "working_dir = %s\n" % toml_str(rng.choice([shared_dir, "../work", "../work/."]))
        elif wd == "own":
            os.makedirs(os.path.join(case.root, "s%d/out" % k))
            s.extra = 'working_dir = "out"\n'
        s.wd = {"shared": shared_dir, "own": os.path.join(case.root, "s%d/out" % k), "temp": None}[wd]
        for i in range(rng.randint(2, 8)):
            p = rng.choice(["a", "b", "a/b", "d e"]) + "/" + rng.choice(["x.t", "y.t", "x", "x.t.t"])
            if p in s.tests or not p.endswith(".t"):
                continue
            id = "T%d" % n
            n += 1
            t = T(id)
            env = ""
            nap = "sleep 0.0%d" % rng.randint(0, 9)
            lines = ["RUN: state %s 1 '%%t' '%%basename_t'" % id,
                     "RUN: test ! -e '%%t'; echo %s > '%%t'; export LEAK=%s; %s; umask 077; mkdir '%%t.d' && cd '%%t.d' && touch %s" % (id, id, nap, id),
                     "RUN: %s; test \"$(cat '%%t')\" = %s && test \"$(ls '%%t.d')\" = %s" % (nap, id, id),
                     "RUN: test \"$(ls \"$(dirname '%%t')\" | wc -l)\" -eq 2 && state %s 2 '%%t' '%%basename_t'" % id]
            t.content = "\n".join(lines).replace("%%", "%") + "\n"
            if rng.random() < .25:
                t.content += "RUN: false\n"
                t.status = "FAIL"
            else:
                t.status = "PASS"
            t.mine = None
            s.tests[p] = t
            want[id] = (s, p, t)
        # the environment of one directory
        for d in {os.path.dirname(p) for p in s.tests}:
            if rng.random() < .5:
                v = rng.choice(["%s-%d", "%s-%d", " %s %d ", "%s=%d=", "$HOME/%s/%d", "%s\t%d\t", "'%s' \"%d\"", "%s\\%d\\", "é%s;%d #"]) % (d, k) if rng.random() < .9 else ""
                case.write(os.path.join(s.dir, d, "lit.local.toml"), "[env]\nMINE = %s\n" % toml_str(v))
                for p, t in s.tests.items():
                    if p.startswith(d + "/"):
                        t.mine = v if t.mine is None or len(d) > len(t.mine_dir) else t.mine
                        t.mine_dir = d if t.mine == v else t.mine_dir
        suites.append(s)
        s.write(case)
    os.umask(0o022)
    workers = rng.choice([1, 2, 8, 16, 32])
    case.note("%d tests in %s, %d workers" % (len(want), [(s.name, s.dir, s.wd) for s in suites], workers))
    res = case.lit("-j%d" % workers, *[s.dir for s in suites])
    log = collections.defaultdict(list)
    for e in case.events():
        f = e.split("\x1f")
        log[f[0]].append(f[1:])
    seen = {}
    case.ensure(set(log) == set(want), "other tests ran: %r" % (set(log) ^ set(want)), res)
    for id, (s, p, t) in want.items():
        got = log[id]
        case.ensure([g[0] for g in got] == ["1", "2"], "%s of %s logged %r" % (id, s.dir, got), res, t.content)
        (_, t1, b1, wd1, mine1, leak1, in1, um1), (_, t2, b2, wd2, mine2, leak2, in2, um2) = got
        case.ensure(t1 == t2, "%%t changed from %r to %r" % (t1, t2), res)
        case.ensure(t1 not in seen, "%%t of %s is also that of %s: %r" % (id, seen.get(t1), t1), res)
        case.ensure(os.path.dirname(t1) not in {os.path.dirname(x) for x in seen}, "two tests share the directory of %%t: %r" % t1, res)
        seen[t1] = id
        case.ensure(b1 == os.path.basename(p) and t1.endswith("/" + b1 + ".tmp"), "%%t is %r, %%basename_t %r" % (t1, b1), res)
        base = s.wd or os.path.dirname(wd1)
        case.ensure(t1.startswith((s.wd or wd1) + "/"), "%%t is outside of the working directory %r: %r" % (s.wd or wd1, t1), res)
        case.ensure(wd1 == s.wd if s.wd else wd1.startswith(case.tmp + "/" + s.name + "."), "ran in %r instead of %r" % (wd1, s.wd), res)
        case.ensure(mine1 == mine2 == (t.mine if t.mine is not None else "unset"), "MINE is %r, %r instead of %r" % (mine1, mine2, t.mine), res)
        case.ensure(leak1 == "unset" and leak2 == id, "LEAK is %r, then %r" % (leak1, leak2), res)
        case.ensure(in1 == in2 == "", "the standard input of a command is %r" % (in1 + in2), res)
        case.ensure(um1 == "0022", "the umask of another test: %r" % um1, res)
        case.evaluated((t.content, s.name, p, workers) if len(want) > 1 else None)
        case.count("isolated tests observed")
    rep = Report(res)
    names = collections.Counter((t.status, s.full(p)) for s in suites for p, t in s.tests.items())
    case.ensure(collections.Counter(rep.lines) == names, "other results: %s" % multiset_diff(names.elements(), rep.lines), res)

def programs(case):
    """The same for executable tests: working directory, environment, input"""
    rng = case.rng
    case.helper("state", 'IFS=$(printf "\\037")\nprintf "%s\\n" "$*$IFS$(pwd)$IFS${MINE-unset}$IFS${LEAK-unset}$IFS$(cat)$IFS$(umask)$IFS$PATH" >> "$VLOG"\n')
    os.mkdir(os.path.join(case.root, "work"))
    want = {}
    suites = []
    value = lambda: rng.choice(["v%d", " v%d ", "a=b%d=", "$HOME%d", "é%d;#", "%d\t"]) % rng.randint(0, 99)
    for k in range(rng.randint(1, 3)):
        s = Suite(rng.choice(["same", "s%d" % k]), "s%d" % k, fmt=rng.choice(["executable", "exe"]))
        wd = rng.choice(["work", "own", "temp"])
        os.makedirs(os.path.join(case.root, s.dir, "out"))
        s.extra = {"work": 'working_dir = "../work"\n', "own": 'working_dir = "out"\n', "temp": ""}[wd]
        s.wd = {"work": os.path.join(case.root, "work"), "own": os.path.join(case.root, s.dir, "out"), "temp": None}[wd]
        mine = {"": rng.choice([None, value()])}
        if mine[""] is not None:
            s.extra += "env = { MINE = %s }\n" % toml_str(mine[""])
        for d in ("a", "a/b", "c"):
            mine[d] = mine[os.path.dirname(d)]
            if rng.random() < .5:
                mine[d] = value()
                case.write(os.path.join(s.dir, d, "lit.local.toml"), "[env]\nMINE = %s\n" % toml_str(mine[d]))
        for d in rng.choices(["", "a", "a/b", "c"], k=rng.randint(2, 7)):
            id = "P%d" % len(want)
            t = T(id)
            nap = "sleep 0.0%d\n" % rng.randint(0, 9)
            t.content = "#!/bin/sh\nstate %s 1\n%sexport LEAK=%s MINE=lost; umask 077\nmkdir %s.d\ncd %s.d\n%sstate %s 2\n" % (id, nap, id, id, id, nap, id)
            t.status, t.mode, t.mine = "PASS", 0o755, mine[d]
            if rng.random() < .3:
                t.content += "exit %d\n" % rng.randint(1, 255)
                t.status = "FAIL"
            s.tests[os.path.join(d, rng.choice(["x", "y"]) + id + ".t")] = t
            want[id] = (s, t)
        s.write(case)
        suites.append(s)
    paths = rng.choice([[], ["p1"], ["p2", "p1"]])
    for p in paths:
        os.mkdir(os.path.join(case.root, p))
    os.umask(0o022)
    res = case.lit(*[a for p in paths for a in ("--path", p)], "-j%d" % rng.choice([1, 3, 8, 16]), *[s.dir for s in suites], env={"LIT_OUTSIDE": "1"})
    log = collections.defaultdict(list)
    for e in case.events():
        f = e.split("\x1f")
        log[f[0]].append(f[1:])
    case.ensure(set(log) == set(want), "other tests ran: %r" % (set(log) ^ set(want)), res)
    for id, (s, t) in want.items():
        got = log[id]
        case.ensure([g[0] for g in got] == ["1", "2"], "%s logged %r" % (id, got), res, t.content)
        (_, wd1, mine1, leak1, in1, um1, path1), (_, wd2, mine2, leak2, in2, um2, path2) = got
        case.ensure(wd1 == s.wd if s.wd else wd1.startswith(case.tmp + "/" + s.name + ".") and "/" not in wd1[len(case.tmp) + 1:], "ran in %r instead of %r" % (wd1, s.wd), res)
        case.ensure(wd2 == wd1 + "/" + id + ".d" and mine2 == "lost" and leak2 == id, "%s goes on with other settings: %r" % (id, got), res)
        case.ensure(mine1 == (t.mine if t.mine is not None else "unset"), "MINE is %r instead of %r" % (mine1, t.mine), res)
        case.ensure(leak1 == "unset" and in1 == in2 == "" and um1 == "0022", "%s began with the settings of another test: %r" % (id, got), res)
        case.ensure(path1.split(":")[:len(paths) + 1] == [case.bin] + [os.path.join(case.root, p) for p in paths] and path1 == path2, "PATH is %r" % path1, res)
        case.evaluated((t.content, s.wd is None, t.mine))
        case.count("isolated programs observed")
    check_report(case, res, [(s.full(p), t.status) for s in suites for p, t in s.tests.items()])

TEXTS = ["word", "two words", "é ünï 日本", "PASS", "[1/2]", "  indented", "tab\\there", "a%%b", "<x>", "{}", "-- done", "\\\\", "$HOME"]

def output(case):
    """What is shown of a test is its output: all of it, and nothing else"""
    rng = case.rng
    s = Suite("out", "out", patterns=["*.t"])
    tests = {}
    slow = rng.random() < .12
    limit = 2
    for i in range(rng.randint(2, 14)):
        id = "Z%dZ" % i
        out, err, lines = [], [], []
        code = 0
        hang = slow and rng.random() < .4
        for j in range(rng.randint(1, 5)):
            k = rng.random()
            if k < .3:
                n = rng.choice([10, 100, 3000])
                lines.append("RUN: i=0; while [ $i -lt %d ]; do echo \"%s bulk $i\"; i=$((i+1)); done" % (n, id))
                out += ["%s bulk %d" % (id, q) for q in range(n)]
            elif k < .4:
                n = rng.choice([5, 200])
                lines.append("RUN: { set +x; } 2>/dev/null; i=0; while [ $i -lt %d ]; do echo \"%s o $i\"; echo \"%s e $i\" >&2; i=$((i+1)); done" % (n, id, id))
                out += ["%s o %d" % (id, q) for q in range(n)]
                err += ["%s e %d" % (id, q) for q in range(n)]
            elif k < .5:
                lines.append("RUN: (sleep 0.0%d; echo \"%s late %d\") & wait" % (rng.randint(1, 9), id, j))
                out.append("%s late %d" % (id, j))
            else:
                text = rng.choice(TEXTS)
                shown = text.replace("%%", "%").replace("\\there", "\there").replace("\\\\", "\\")
                to = rng.choice(["out", "out", "err"])
                lines.append("RUN: printf '%%%%s\\n' '%s %d %s'%s" % (id, j, shown.replace("%", "%%"), " >&2" if to == "err" else ""))
                (out if to == "out" else err).append("%s %d %s" % (id, j, shown))
            if rng.random() < .5:
                lines.append("RUN: sleep 0.0%d" % rng.randint(0, 5))
        if rng.random() < .3:
            lines.append("RUN: printf '%s no newline'" % id)
            out.append("%s no newline" % id)
        status = "PASS"
        if hang:
            lines.append("RUN: sleep 60")
            status = "TIMEOUT"
        elif rng.random() < .6:
            code, status = rng.choice([(1, "FAIL"), (3, "FAIL"), (127, "FAIL"), (255, "FAIL")])
            lines.append("RUN: exit %d" % code)
        elif rng.random() < .2:
            lines.append("RUN: kill -9 $$")
            code, status = None, "UNRESOLVED"
        if status == "PASS" and rng.random() < .2:
            lines.append("XFAIL: *")
            status = "XPASS"
        elif status == "FAIL" and rng.random() < .2:
            lines.append("XFAIL: *")
            status = "XFAIL"
        t = T(id)
        t.content, t.status, t.out, t.err, t.code = "\n".join(lines) + "\n", status, out, err, code
        s.tests["%s%d.t" % (rng.choice(["t", "d/t", "é"]), i)] = t
        tests["out::" + list(s.tests)[-1]] = t
    s.write(case)
    mode = rng.choice(["-v", "-v", "-a", "-qv", "-a", "", "-q"])
    workers = rng.choice([1, 4, 8, 16])
    case.note("%s -j%d %s" % (mode, workers, [(n, t.status, len(t.out), len(t.err)) for n, t in tests.items()]))
    res = case.lit(*([mode] if mode else []), "-j%d" % workers, *(["--timeout", str(limit)] if slow else []), "out")
    # split into the blocks of the tests
    blocks, cur, lines = {}, None, res.out.split("\n")
    for l in lines:
        m = TAG_RE.match(l)
        if m and m.group(2) in tests:
            cur = m.group(2)
            case.ensure(cur not in blocks, "%s is reported twice" % cur, res)
            blocks[cur] = (m.group(1), [])
            continue
        if GROUP_RE.match(l) or l.startswith("Total Discovered Tests: "):
            break
        if cur:
            blocks[cur][1].append(l)
        else:
            case.ensure(l == "", "a line which belongs to no test: %r" % l, res)
    ids = {t.id: n for n, t in tests.items()}
    for n, t in tests.items():
        fails = t.status in FAILING
        listed = fails or "q" not in mode
        case.ensure((n in blocks) == listed, "%s is %s" % (n, "not reported" if listed else "reported although it did not fail"), res)
        if not listed:
            continue
        tag, body = blocks[n]
        case.ensure(tag == t.status, "%s is %s instead of %s" % (n, tag, t.status), res)
        shown = mode == "-a" or fails and "v" in mode
        text = "\n".join(body)
        for other in ids:
            case.ensure(other == t.id or other not in text, "the output of %s is in that of %s" % (ids[other], n), text[:3000])
        if not shown:
            case.ensure(text.strip() == "", "output of %s is shown although it was not asked for" % n, text[:2000])
            continue
        sections = {}
        for name in ("stdout", "stderr"):
            h = "Command Output (%s) ----" % name
            if h in body:
                a = body.index(h) + 1
                b = body.index("-" * 28, a)
                sections[name] = "\n".join(body[a:b])
        want = "\n".join(t.out) + ("\n" if t.out and not t.out[-1].endswith("no newline") else "")
        got = sections.get("stdout", "")
        case.ensure(got == want, "the standard output shown of %s is not what it wrote (%d instead of %d characters)" % (n, len(got), len(want)), "got:\n" + got[-1500:], "want:\n" + want[-1500:])
        got = [l for l in sections.get("stderr", "").split("\n") if l.startswith(t.id)]
        case.ensure(got == t.err, "the standard error shown of %s is not what it wrote: %r" % (n, multiset_diff(t.err, got)), text[-3000:])
        runs = [l for l in sections.get("stderr", "").split("\n") if l.startswith("RUN at line ")]
        wantruns = sum(l.startswith("RUN") for l in t.content.split("\n"))
        case.ensure(len(runs) == wantruns, "%d of %d commands are shown for %s" % (len(runs), wantruns, n), text[-3000:])
        codes = [l for l in body if l.startswith("Exit Code: ")]
        wantc = [] if t.code == 0 and t.status != "TIMEOUT" else ["Exit Code: N/A" if t.code is None or t.status == "TIMEOUT" else "Exit Code: %d" % t.code]
        case.ensure(codes == wantc, "the exit code shown of %s is %r instead of %r" % (n, codes, wantc), text[-2000:])
        case.count("rendered outputs compared")
        case.count("rendered lines compared", len(t.out) + len(t.err))
        case.evaluated((t.content, mode, workers))
    case.evaluated()

STREAMS = [("programs", 24, 300, programs), ("shared", 110, 1200, shared), ("output", 130, 1400, output, 1)]
