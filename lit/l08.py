from base import *
from model import *

RULE = ("One case is a generated tree of files and nested suites with glob patterns and exclusions, and several sets of requested paths and filters; what show-tests and show-suites list and what run "
        "executes and reports is compared with a reference discovery. Non-trivial: selections of at least one test, by selection and tree.")
ASSUMPTIONS = ["file names are UTF-8 and directories are not hidden", "patterns are those of the glob crate, in which * and ? match / too", "a requested symbolic link stands for what it points to", "requested paths are in the working directory, and those outside of every suite select nothing"]

# ------------------------------------------------------------------ reference
def glob_re(p):
    out, i = "", 0
    while i < len(p):
        c = p[i]
        if p.startswith("**", i):
            if p.startswith("**/", i):
                out += "(?:.*/)?"
                i += 3
            else:
                out += ".*"
                i += 2
        elif c == "*":
            out += ".*"
            i += 1
        elif c == "?":
            out += "."
            i += 1
        elif c == "[":
            neg = p[i + 1] == "!"
            end = p.index("]", i + (3 if neg else 2))
            body = p[i + (2 if neg else 1):end]
            out += "[" + ("^" if neg else "") + re.sub(r"([\\\]\[^])", r"\\\1", body) + "]"
            i = end + 1
        else:
            out += re.escape(c)
            i += 1
    return re.compile(out, re.S)
def matches(p, path):
    return glob_re(p).fullmatch(path) is not None

PATTERNS = ["*.t", "*.t", "*.t", "*.x", "a*", "**/*.t", "b/*.t", "b/**", "**/b/*", "?.t", "[ab].t", "[!a]*.t", "b/b/*", "*", "a.t", "b/a.t", "*é*", "**/[a-c]?.t", "*.[tx]", "* *", "b*/?.?"]
DIRS = ["a", "b", "c", "with space", "ü", "b.t", "-d", "p%q"]
FILES = ["a.t", "b.t", "c.t", "ab.t", "d.x", "a.x", "é.t", "a b.t", "-f.t", "(1).t", "x%s.t", "[a].t", "noext", "a.t.t", "UP.T", ".hidden.t", ".t", "lit.t", "#.t"]

class S:
    pass

def make_tree(case):
    rng = case.rng
    dirs = [""]
    for _ in range(rng.randint(1, 9)):
        d = os.path.join(rng.choice(dirs), rng.choice(DIRS))
        if d not in dirs and d.count("/") < 5:
            dirs.append(d)
    suites = {}
    pool = dirs[1:] if rng.random() < .7 else dirs
    for d in rng.sample(pool, min(len(pool), rng.randint(1, 4))):
        s = S()
        s.dir, s.name, s.src = d, rng.choice(["s", "t", "s%d" % len(suites), "a b", "x::y", "ü"]), d
        s.patterns = rng.sample(PATTERNS, rng.randint(1, 3))
        s.exclude = rng.sample(PATTERNS, rng.randint(1, 2)) if rng.random() < .4 else []
        s.via = rng.choice(["", "", "", ".", "./"])
        subs = [x for x in dirs if os.path.dirname(x) == d and x != d]
        if subs and rng.random() < .15:
            s.src = rng.choice(subs)
            s.via = os.path.basename(s.src)
        suites[d] = s
    # a source directory which is itself a suite would have two owners
    for s in list(suites.values()):
        if s.src != s.dir and s.src in suites:
            del suites[s.src]
    for s in suites.values():
        toml = "name = %s\npatterns = %s\n" % (toml_str(s.name), toml_list(s.patterns))
        if s.exclude:
            toml += "exclude = %s\n" % toml_list(s.exclude)
        if s.via:
            toml += "source_dir = %s\n" % toml_str(s.via)
        toml += rng.choice(["", "[format.shtest]\n"])
        if rng.random() < .08:
            # the configuration may be a link
            conf = os.path.join(case.dir, "suite-%d.toml" % list(suites).index(s.dir))
            with open(conf, "w") as f:
                f.write(toml)
            os.makedirs(os.path.join(case.root, s.dir), exist_ok=True)
            os.symlink(conf, os.path.join(case.root, s.dir, "lit.suite.toml"))
        else:
            case.write(os.path.join(s.dir, "lit.suite.toml"), toml)
    files = {}
    for d in dirs:
        os.makedirs(os.path.join(case.root, d), exist_ok=True)
        for f in rng.sample(FILES, rng.randint(0, 6)):
            p = os.path.join(d, f)
            if p in dirs:
                continue
            files[p] = "F%d" % len(files)
            case.write(p, "RUN: printf '%s\\n' >> \"$VLOG\"\n" % files[p])
    if files and rng.random() < .2:
        # links to files are files
        src = rng.choice(sorted(files))
        p = os.path.join(rng.choice(dirs), "link.t")
        if p not in files and p not in dirs:
            os.symlink(os.path.join(case.root, src), os.path.join(case.root, p))
            files[p] = files[src]
    if rng.random() < .25:
        # links to nothing, as editors leave them, are no files
        for _ in range(rng.randint(1, 3)):
            p = os.path.join(rng.choice(dirs), rng.choice([".#a.t", "gone.t", "x.txt", "#z", "zz"]))
            if not os.path.lexists(os.path.join(case.root, p)):
                os.symlink(rng.choice(["nowhere", "/nonexistent/x.t", "user@host.1234:1700000000"]), os.path.join(case.root, p))
                case.count("dangling links")
    return dirs, suites, files

def owner(suites, path, isdir):
    """The suite to which a directory or file belongs"""
    d = path if isdir else os.path.dirname(path)
    while True:
        if d in suites:
            return suites[d]
        if not d:
            return None
        d = os.path.dirname(d)

def under(path, d):
    return not d or path == d or path.startswith(d + "/")

def rel(path, d):
    return path[len(d) + 1:] if d else path

def tests_of(s, suites, files):
    """path -> path in suite"""
    out = {}
    for p in files:
        if not under(p, s.src) or owner(suites, p, False) is not s:
            continue
        r = rel(p, s.src)
        if os.path.basename(p).startswith(".") or not any(matches(g, r) for g in s.patterns) or any(matches(g, r) for g in s.exclude):
            continue
        out[p] = r
    # the configuration files are files too
    for q in (os.path.join(o.dir, "lit.suite.toml") for o in suites.values()):
        if under(q, s.src) and owner(suites, q, False) is s:
            r = rel(q, s.src)
            if any(matches(g, r) for g in s.patterns) and not any(matches(g, r) for g in s.exclude):
                out[q] = r
    return out

def select(requests, suites, files):
    """suite -> {path: name}, for the suites that the requests reach"""
    out = {}
    def add(s, prefix):
        got = out.setdefault(s.dir, {})
        for p, r in tests_of(s, suites, files).items():
            if under(p, prefix):
                got[p] = "%s::%s" % (s.name, r)
        for o in suites.values():
            # the suites directly nested in it
            if o is not s and o.dir and o.dir != s.dir and under(o.dir, prefix) and under(o.dir, s.src) and owner(suites, os.path.dirname(o.dir), True) is s:
                add(o, o.src)
    for p, isdir in requests:
        s = owner(suites, p, isdir)
        if s is None:
            continue
        add(s, s.src if p == s.dir else p)
    return out

# ------------------------------------------------------------------ observation
SHOW_RE = re.compile(r"^  (.*) \(format=(\w+)\)$")
SUITE_RE = re.compile(r"^  \* (.*) - (\d+) tests$")

def compare(case, what, want, got, res):
    if collections.Counter(want) != collections.Counter(got):
        case.fail("%s: %s" % (what, multiset_diff(want, got)), res, "tree:\n" + tree_text(case))

def tree_text(case):
    out = []
    for d, ds, fs in os.walk(case.root):
        for f in sorted(fs):
            p = os.path.join(d, f)
            out.append(os.path.relpath(p, case.root))
            if f.endswith(".toml"):
                out.append("      " + open(p, errors="backslashreplace").read().replace("\n", "\n      "))
    return "\n".join(out)

def as_given(rng, case, p):
    p = p or "."
    how = rng.random()
    if how < .15:
        return os.path.join(case.root, p)
    if how < .25 and os.path.isdir(os.path.join(case.root, p)):
        return "./" + p + "/"
    if how < .32:
        return "./" + (os.path.dirname(p) or ".") + "/." + "/./" + os.path.basename(p) if p != "." else "./."
    return "./" + p if p.startswith("-") else p

def check_selection(case, dirs, suites, files, requests, filt=None):
    rng = case.rng
    sel = select(requests, suites, files)
    paths = [as_given(rng, case, p) for p, _ in requests]
    ok = filt or (lambda name: True)
    fargs, env = [], {}
    if filt:
        fargs, env = filt.args, filt.env
    every = [(p, n) for s in sel.values() for p, n in s.items()]
    wanted = [(p, n) for p, n in every if ok(n)]
    order = rng.sample(["show-tests", "show-suites", "run"], 3)
    case.note("request %s %s %s of suites %s" % (paths, fargs, env, [(s.name, s.dir, s.patterns, s.exclude) for s in suites.values()]))
    for cmd in order:
        case.clear_events()
        res = case.run(["lit", cmd] + (["-j%d" % rng.choice([1, 4])] if cmd == "run" else []) + fargs + paths, env=env)
        if not sel:
            case.ensure(res.rc == 100 and not case.events(), "paths outside of all suites have to be reported as such", res)
            continue
        if cmd == "show-tests":
            case.ensure(res.rc == 0, "show-tests failed", res)
            got = [m.group(1) for m in map(SHOW_RE.match, res.out.split("\n")) if m]
            compare(case, "show-tests lists other tests than there are", [n for _, n in wanted], got, res)
            case.count("listed tests", len(got))
        elif cmd == "show-suites":
            case.ensure(res.rc == 0, "show-suites failed", res)
            got, roots = [], []
            for line in res.out.split("\n"):
                m = SUITE_RE.match(line)
                if m:
                    got.append((m.group(1), int(m.group(2))))
                if line.startswith("    Source Root  : "):
                    roots.append(line[len("    Source Root  : "):])
            compare(case, "show-suites lists other suites than there are", [(suites[d].name, len(ts)) for d, ts in sel.items()], got, res)
            compare(case, "the source roots are others", [os.path.join(case.root, suites[d].src).rstrip("/") for d in sel], roots, res)
            case.count("listed suites", len(got))
        else:
            events = case.events()
            runnable = [(p, n) for p, n in wanted if p in files]
            if not wanted:
                case.ensure(res.rc == 1 and not events, "a run without a test has to fail", res)
                continue
            compare(case, "run executed other tests than there are", [files[p] for p, _ in runnable], events, res)
            rep = Report(res)
            compare(case, "run reported other tests than there are", [n for _, n in wanted], [n for _, n in rep.lines], res)
            compare(case, "run excluded other tests", [n for p, n in every if not ok(n)], rep.groups.get("Excluded", (0, []))[1], res)
            case.ensure(rep.total == len(every), "run counts %s tests instead of %d" % (rep.total, len(every)), res)
            case.ensure((res.rc == 0) == (len(runnable) == len(wanted)), "exit status %d" % res.rc, res)
            case.count("executed tests", len(events))
    case.evaluated((sorted(wanted), sorted(requests), sorted(suites)) if wanted else None)
    return wanted

def some_requests(rng, dirs, suites, files):
    reqs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        k = rng.random()
        if k < .35:
            reqs.append((rng.choice(sorted(suites)), True))
        elif k < .7 or not files:
            reqs.append((rng.choice(dirs), True))
        else:
            reqs.append((rng.choice(sorted(files)), False))
    # a link stands for what it points to
    reqs = [(p, d) for p, d in reqs if os.path.basename(p) != "link.t"]
    # what is in the directory of a suite but not in its sources belongs to nobody; asking for it is left open
    return [(p, d) for p, d in reqs if (lambda s: s is None or p == s.dir or under(p, s.src))(owner(suites, p, d))]

class Filter:
    def __init__(self, rng):
        words = ["a", r"\.t$", "^s", "::a", "b/", "é|x", "[0-9]", "(?i)up", "s::", " ", r"^[^/]*$", "zzz", "%"]
        self.inc = rng.choice(words) if rng.random() < .7 else None
        self.exc = rng.choice(words) if rng.random() < .6 or not self.inc else None
        self.args, self.env = [], {}
        for flag, var, v in (("--filter", "LIT_FILTER", self.inc), ("--filter-out", "LIT_FILTER_OUT", self.exc)):
            if v is not None:
                if rng.random() < .25:
                    self.env[var] = v
                else:
                    self.args += rng.choice([[flag, v], [flag + "=" + v]])
    def __call__(self, name):
        return (self.inc is None or re.search(self.inc, name) is not None) and (self.exc is None or re.search(self.exc, name) is None)

def tree(case):
    rng = case.rng
    dirs, suites, files = make_tree(case)
    for _ in range(3):
        reqs = some_requests(rng, dirs, suites, files)
        if reqs:
            check_selection(case, dirs, suites, files, reqs, Filter(rng) if rng.random() < .3 else None)

def parts(case):
    """All the directories and files of one suite, asked for one by one, add up to the suite"""
    rng = case.rng
    dirs, suites, files = make_tree(case)
    d = rng.choice(sorted(suites))
    s = suites[d]
    whole = select([(d, True)], suites, files)
    reqs = [(x, True) for x in dirs if under(x, s.src) and owner(suites, x, True) is s and x != d] + [(p, False) for p in tests_of(s, suites, files) if p in files and os.path.basename(p) != "link.t"]
    rng.shuffle(reqs)
    for r in reqs[:6]:
        check_selection(case, dirs, suites, files, [r])
    if reqs:
        check_selection(case, dirs, suites, files, reqs)
    check_selection(case, dirs, suites, files, [(d, True)])

def patterns(case):
    """One flat suite, many names, patterns only"""
    rng = case.rng
    s = S()
    s.dir, s.name, s.src = "p", "p", "p"
    s.patterns, s.exclude = rng.sample(PATTERNS, rng.randint(1, 3)), rng.sample(PATTERNS, rng.choice([0, 1, 2]))
    case.write("p/lit.suite.toml", "name = \"p\"\npatterns = %s\nexclude = %s\n" % (toml_list(s.patterns), toml_list(s.exclude)))
    files = {}
    for d in ["p", "p/a", "p/b", "p/b/b", "p/with space", "p/c/b/a"]:
        for f in rng.sample(FILES, 5):
            files[os.path.join(d, f)] = "F%d" % len(files)
            case.write(os.path.join(d, f), "RUN: printf 'F%d\\n' >> \"$VLOG\"\n" % (len(files) - 1))
    check_selection(case, [], {"p": s}, files, [("p", True)])

def many(case):
    """More tests than other cases have, in a few directories of a few suites, asked for whole, in parts and filtered"""
    rng = case.rng
    suites, files, dirs = {}, {}, []
    for k in range(rng.randint(1, 3)):
        s = S()
        s.dir = s.name = s.src = "m%d" % k
        s.patterns, s.exclude = rng.choice([["*.t"], ["*.t", "*.x"], ["*"]]), rng.choice([[], ["*9.t"], ["d1/*"]])
        case.write(s.dir + "/lit.suite.toml", "name = \"%s\"\npatterns = %s\nexclude = %s\n" % (s.name, toml_list(s.patterns), toml_list(s.exclude)))
        suites[s.dir] = s
        for i in range(rng.choice([70, 140, 290])):
            d = s.dir + rng.choice(["", "/d0", "/d1", "/d1/d2"])
            f = "%s/%d.%s" % (d, i, rng.choice("ttx"))
            files[f] = "F%d" % len(files)
            case.write(f, "RUN: printf '%s\\n' >> \"$VLOG\"\n" % files[f])
            if d not in dirs:
                dirs.append(d)
    everything = [(s, True) for s in suites]
    rng.shuffle(everything)
    check_selection(case, dirs, suites, files, everything, Filter(rng) if rng.random() < .3 else None)
    check_selection(case, dirs, suites, files, [(x, True) for x in rng.sample(dirs, min(2, len(dirs)))] + [(x, False) for x in rng.sample([f for f in files if f.endswith(".t") and not f.endswith("9.t") and "/d1/" not in f], 3)])

def errors(case):
    """What does not exist, is not a suite, or cannot be read is an error and never an empty success"""
    rng = case.rng
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n")
    case.write("s/a.t", "RUN: printf 'a\\n' >> \"$VLOG\"\n")
    case.write("s/b.u", "RUN: printf 'b\\n' >> \"$VLOG\"\n")
    case.write("none/a.t", "RUN: printf 'x\\n' >> \"$VLOG\"\n")
    case.write("empty/lit.suite.toml", "name = \"e\"\npatterns = [\"*.t\"]\n")
    bad = {"noname": "patterns = [\"*.t\"]\n", "emptyname": "name = \"\"\npatterns = [\"*.t\"]\n", "syntax": "name = \"s\npatterns", "glob": "name = \"g\"\npatterns = [\"a**\"]\n",
           "type": "name = \"g\"\npatterns = \"*.t\"\n", "src": "name = \"g\"\npatterns = [\"*.t\"]\nsource_dir = \"nothere\"\n", "work": "name = \"g\"\npatterns = [\"*.t\"]\nworking_dir = \"nothere\"\n",
           "exclude": "name = \"g\"\npatterns = [\"*.t\"]\nexclude = [\"[\"]\n", "format": "name = \"g\"\npatterns = [\"*.t\"]\n[format.unknown]\n", "srcfile": "name = \"g\"\npatterns = [\"*.t\"]\nsource_dir = \"a.t\"\n",
           "fmtval": "name = \"g\"\npatterns = [\"*.t\"]\nformat = 3\n"}
    for k, text in bad.items():
        case.write(k + "/lit.suite.toml", text)
        case.write(k + "/a.t", "RUN: printf 'bad\\n' >> \"$VLOG\"\n")
    os.mkdir(os.path.join(case.dir, "outside"))
    # the sources of a suite are in one directory, and those beside it are not its own
    case.write("side/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\nsource_dir = \"b\"\n")
    for d in ("b", "bc", "b.t", "a", "B", "bc/b"):
        case.write("side/%s/a.t" % d, "RUN: printf '%s\\n' >> \"$VLOG\"\n" % d)
    for cmd in ("run", "show-tests", "show-suites"):
        for arg in ["missing", "s/missing.t", os.path.join(case.dir, "outside")] + sorted(bad):
            extra = rng.choice([[], ["s"], []])
            res = case.run(["lit", cmd] + extra + [arg])
            case.ensure(res.rc not in (0,), "%s %r has to fail" % (cmd, arg), res)
            case.ensure(not case.events(), "a test was executed", res)
            case.evaluated((cmd, arg, bool(extra)))
        res = case.run(["lit", cmd, "none"])
        case.ensure(res.rc == 100, "a path without a suite has to be reported with status 100", res)
        case.evaluated((cmd, "none"))
        for d in ("bc", "b.t", "a", "B", "bc/b", "bc/a.t", "b.t/a.t"):
            res = case.run(["lit", cmd, "side/" + d])
            case.ensure(res.rc == 100 and not case.events(), "%s beside the sources of a suite belongs to no suite" % d, res)
            case.evaluated((cmd, "side", d))
        res = case.run(["lit", cmd, rng.choice(["side", "side/b", "side/b/a.t"])])
        case.ensure(res.rc == 0 and case.events() == (["b"] if cmd == "run" else []), "%s of the sources of a suite fails" % cmd, res)
        case.clear_events()
    for arg in ["empty", "s/b.u"]:
        res = case.run(["lit", "run", arg])
        case.ensure(res.rc not in (0,) and not case.events(), "a run without any test must not succeed", res)
        case.evaluated(("run", arg))
    for flag in ("--filter", "--filter-out"):
        res = case.run(["lit", rng.choice(["run", "show-tests"]), flag, "(", "s"])
        case.ensure(res.rc == 2 and not case.events(), "an invalid filter has to be rejected", res)
        case.evaluated((flag, "("))

STREAMS = [("tree", 350, 3000, tree), ("parts", 50, 500, parts), ("patterns", 120, 1000, patterns), ("many", 4, 40, many), ("errors", 2, 4, errors)]
