from base import *
from model import *
import l08

RULE = ("One case is a generated tree of suites, nested suites and local configuration files; every test logs the environment, substitutions and format it runs with, and probes features with REQUIRES. "
        "What is logged is compared with a reference of the inheritance, for several ways of selecting the same tests. Non-trivial: every test below at least one local configuration, by its configuration.")
ASSUMPTIONS = ["values have no quotes or percent signs, so that only their origin matters", "unknown keys in configuration files are left open"]

ENV = ["VA", "VB", "VC", "PATH_X", "HOME"]
SUBST = ["%wa", "%wb", "%wc", "@wd", r"%\{we\}"]
SHOWN = ["%wa", "%wb", "%wc", "@wd", "%{we}"]
FEAT = ["fa", "fb", "fc", "f-d.1+", "native", "target-aarch64", "x86_64-linux", "system-linux"]
DEFAULT_FEATURES = {"native", "x86_64-linux", "system-linux"}
TARGETS = [("aarch64-unknown-linux-gnu", {"target-aarch64", "system-linux"}), ("x86_64-apple-darwin", {"system-linux"}), ("x86_64-unknown-linux-gnu", DEFAULT_FEATURES), ("x86_64-unknown-linux-musl", {"x86_64-linux", "system-linux"})]
EXTS = ["t", "u", "v"]

def gen_settings(rng, where, suite=False):
    c = {}
    n = 0
    def val():
        nonlocal n
        n += 1
        v = "%s.%d" % (where.replace("%", "p"), n)
        return rng.choice(["", "", "", "v "]) + v + rng.choice(["", "", "", "  ", "=", "=x", ";#", "é"]) if rng.random() < .9 else ""
    if rng.random() < .6:
        c["env"] = {k: val() for k in rng.sample(ENV, rng.randint(1, 3))}
    if rng.random() < .6:
        c["substitutions"] = {k: val() for k in rng.sample(SUBST, rng.randint(1, 3))}
    if rng.random() < .5:
        c["available_features"] = rng.sample(FEAT[:4], rng.randint(1, 2))
    if suite or rng.random() < .35:
        c["patterns"] = ["*." + e for e in rng.sample(EXTS, rng.choice([1, 2, 2, 3]))]
    if rng.random() < .25:
        c["exclude"] = [rng.choice(["*x.*", "*/x.*", "*y.?", "*.u", "nothing"])]
    if rng.random() < .3:
        c["format"] = rng.choice([("shtest", None), ("shtest", {"%fe": val() or "e"}), ("shtest", {"%wa": val() or "e"}), ("executable", None), ("sh", {"%fe": val() or "e", "%wb": "E"}), ("exe", None)])
    return c

def toml(c, head=""):
    s = head
    for k in ("patterns", "exclude", "available_features"):
        if k in c:
            s += "%s = %s\n" % (k, toml_list(c[k]))
    for k in ("env", "substitutions"):
        if k in c:
            s += "[%s]\n" % k + "".join("%s = %s\n" % (toml_str(a), toml_str(b)) for a, b in c[k].items())
    if "format" in c:
        f, extra = c["format"]
        s += "[format.%s]\n" % f
        if extra:
            s += "[format.%s.extra_substitutions]\n" % f + "".join("%s = %s\n" % (toml_str(a), toml_str(b)) for a, b in extra.items())
    return s

def inherit(chain):
    r = {"env": {}, "substitutions": {}, "available_features": set(), "patterns": [], "exclude": [], "format": ("shtest", None)}
    for c in chain:
        for k in ("env", "substitutions"):
            r[k].update(c.get(k, {}))
        r["available_features"] |= set(c.get("available_features", ()))
        for k in ("patterns", "exclude", "format"):
            if c.get(k):
                r[k] = c[k]
    return r

# a test is a script for both formats
BODY = """#!/bin/sh
# RUN: VP=sh vlog ID '%%{we}' '%%wa' '%%wb' '%%wc' '@wd' '%%fe'
VP=exe exec vlog ID '%%{we}' '%%wa' '%%wb' '%%wc' '@wd' '%%fe'
"""

def build(case):
    rng = case.rng
    case.helper("vlog", 'IFS=$(printf "\\037")\nprintf "%s\\n" "$1$IFS$VP$IFS${VA-unset}$IFS${VB-unset}$IFS${VC-unset}$IFS${PATH_X-unset}$IFS${HOME-unset}$IFS$2$IFS$3$IFS$4$IFS$5$IFS$6$IFS$7" >> "$VLOG"\n')
    dirs = ["s"]
    for _ in range(rng.randint(2, 7)):
        d = os.path.join(rng.choice(dirs), rng.choice(["a", "b", "c", "d e", "x"]))
        if d not in dirs and d.count("/") < 5:
            dirs.append(d)
    suites, local = {}, {}
    for d in dirs:
        if d == "s" or (rng.random() < .15):
            s = l08.S()
            s.dir = s.src = d
            s.name = rng.choice(["s", "n"]) + str(len(suites))
            s.conf = gen_settings(rng, "S" + d, suite=True)
            suites[d] = s
        if rng.random() < .55:
            local[d] = gen_settings(rng, "L" + d)
    src = [d for d in dirs if os.path.dirname(d) == "s"]
    if src and rng.random() < .15:
        # the tests of the outermost suite are in a directory of it
        s = suites["s"]
        s.src = rng.choice(src)
        if s.src in suites:
            del suites[s.src]
    for s in suites.values():
        case.write(os.path.join(s.dir, "lit.suite.toml"), toml(s.conf, "name = %s\n%s" % (toml_str(s.name), "source_dir = %s\n" % toml_str(os.path.relpath(s.src, s.dir)) if s.src != s.dir else "")))
    for d, c in local.items():
        case.write(os.path.join(d, "lit.local.toml"), toml(c))
    files = {}
    for d in dirs:
        for f in rng.sample(["x", "y", "z"], rng.choice([1, 1, 2])):
            e = rng.choice(EXTS)
            p = os.path.join(d, f + "." + e)
            id = "I%d" % len(files)
            body, feature = BODY.replace("ID", id).replace("%%", "%"), None
            if rng.random() < .5:
                feature = rng.choice(FEAT)
                body += "# REQUIRES: %s\n" % feature
            files[p] = (id, feature)
            case.write(p, body, 0o755)
    return dirs, suites, local, files

def expected(suites, local, files, p, base_features, home):
    """None if not a test, else (name, status, event)"""
    s = l08.owner(suites, p, False)
    if s is None or not l08.under(p, s.src):
        return None
    chain, d = [], os.path.dirname(p)
    while True:
        if d in local:
            chain.insert(0, local[d])
        if d == s.src:
            break
        d = os.path.dirname(d)
    c = inherit([s.conf] + chain)
    r = l08.rel(p, s.src)
    if not any(l08.matches(g, r) for g in c["patterns"]) or any(l08.matches(g, r) for g in c["exclude"]):
        return None
    id, feature = files[p]
    fmt, extra = c["format"]
    exe = fmt in ("exe", "executable")
    status = "UNSUPPORTED" if not exe and feature and feature not in c["available_features"] | base_features else "PASS"
    event = None
    if status == "PASS":
        env = {"HOME": home, **c["env"]}
        subs = {} if exe else dict(c["substitutions"])
        subs.update({} if exe else extra or {})
        event = [id, "exe" if exe else "sh"] + [env.get(k, "unset") for k in ENV]
        event += [subs.get(k, shown) for k, shown in [(SUBST[4], SHOWN[4]), (SUBST[0], SHOWN[0]), (SUBST[1], SHOWN[1]), (SUBST[2], SHOWN[2]), (SUBST[3], SHOWN[3]), ("%fe", "%fe")]]
    return "%s::%s" % (s.name, r), status, event, exe, bool(chain), c

def check(case, world, reqs, target=None):
    rng = case.rng
    dirs, suites, local, files = world
    case.clear_events()
    base = dict(TARGETS)[target] if target else DEFAULT_FEATURES
    sel = set()
    for p, isdir in reqs:
        s = l08.owner(suites, p, isdir)
        for q in files:
            o = l08.owner(suites, q, False)
            if o is None or s is None:
                continue
            # the suite itself, and those nested in it
            if l08.under(q, s.src if p == s.dir else p) and l08.under(q, s.src):
                sel.add(q)
    want, events = [], []
    for q in sorted(sel):
        e = expected(suites, local, files, q, base, case.dir)
        if e is None:
            continue
        want.append((e[1], e[0]))
        if e[2]:
            events.append("\x1f".join(e[2]))
        if e[4]:
            case.evaluated((e[1], sorted(map(str, e[5].items())), e[2][2:] if e[2] else None))
        else:
            case.evaluated()
    args = (["--target", target] if target else []) + ["-j%d" % rng.choice([1, 4])] + [p for p, _ in reqs]
    res = case.lit(*args)
    detail = l08.tree_text(case)
    rep = Report(res)
    if not want:
        case.ensure(res.rc != 0 and not case.events(), "a run without a test has to fail", res, detail)
        return
    case.ensure(sorted(rep.lines) == sorted(want), "other results than those of the configured tests: %s" % multiset_diff(want, rep.lines), res, detail)
    got = case.events()
    case.ensure(sorted(got) == sorted(events), "tests ran with other settings than those configured: %s" % json.dumps(multiset_diff(events, got), ensure_ascii=False), res, detail)
    case.count("tests observed", len(got))
    res = case.run(["lit", "show-tests"] + [p for p, _ in reqs])
    shown = sorted(l for l in res.out.split("\n") if l.startswith("  "))
    names = sorted("  %s (format=%s)" % (e[0], "executable" if e[3] else "shtest") for e in (expected(suites, local, files, q, base, case.dir) for q in sel) if e)
    case.ensure(shown == names, "show-tests lists other tests or formats: %s" % multiset_diff(names, shown), res, detail)
    listing(case, {l08.owner(suites, q, False).name: l08.owner(suites, q, False) for q in sel}, case.run(["lit", "show-suites"] + [p for p, _ in reqs]), detail)

def listing(case, suites, res, detail):
    """show-suites tells the settings of each suite, without those of the directories in it"""
    case.ensure(res.rc == 0, "show-suites failed", res)
    blocks = {}
    for line in res.out.split("\n"):
        m = l08.SUITE_RE.match(line)
        if m:
            b = blocks[m.group(1)] = {"": {}}
            part = ""
        elif re.match(r"    \S[^:]*:$", line):
            part = line.strip()[:-1]
            b[part] = []
        elif line.startswith("        - "):
            b[part].append(line[10:])
        elif re.match(r"    [A-Z][\w ]*: ", line):
            k, v = line.split(": ", 1)
            b[""][k.strip()] = v
    for name, s in suites.items():
        case.ensure(name in blocks, "show-suites lacks the suite %s" % name, res, detail)
        b, c = blocks[name], inherit([s.conf])
        fmt = "executable" if c["format"][0] in ("exe", "executable") else "shtest"
        case.ensure(b[""].get("Test Format") == fmt, "show-suites tells the format %r of %s" % (b[""].get("Test Format"), name), res, detail)
        case.ensure(b[""].get("Exec Root", "").startswith(case.tmp + "/" + name + "."), "show-suites tells the working directory %r of %s" % (b[""].get("Exec Root"), name), res, detail)
        feats = b.get("Available Features", [])
        want = c["available_features"] | DEFAULT_FEATURES
        case.ensure(len(set(feats)) == len(feats) and want <= set(feats) and not (set(feats) - want) & set(FEAT), "show-suites tells the features %r of %s, which has %r" % (feats, name, want), res, detail)
        env = sorted(re.sub(r"^(\S+) *: ", r"\1: ", l) for l in b.get("Environment Variables", []))
        case.ensure(env == sorted("%s: %s" % i for i in c["env"].items()), "show-suites tells the environment %r of %s, which has %r" % (env, name, c["env"]), res, detail)
        subs = b.get("Available Substitutions", [])
        subs = sorted(re.sub(r"^(\S+) *: ", r"\1: ", l) for l in subs if l.startswith(("%w", "@w", "%fe", r"%\{we")))
        case.ensure(subs == sorted("%s: %s" % i for i in c["substitutions"].items()), "show-suites tells the substitutions %r of %s, which has %r" % (subs, name, c["substitutions"]), res, detail)
        case.count("suites listed with their settings")

def usable(world, reqs):
    _, suites, _, _ = world
    return [(p, d) for p, d in reqs if (lambda s: s is not None and (p == s.dir or l08.under(p, s.src)))(l08.owner(suites, p, d))]

def tree(case):
    rng = case.rng
    world = build(case)
    dirs, suites, local, files = world
    case.note("suites %s, local %s" % ({d: s.conf for d, s in suites.items()}, local))
    check(case, world, [("s", True)], rng.choice([None, None] + [t for t, _ in TARGETS]))
    for _ in range(3):
        reqs = usable(world, [rng.choice([(rng.choice(dirs), True), (rng.choice(sorted(files)), False)]) for _ in range(rng.randint(1, 3))])
        if reqs:
            check(case, world, reqs)

def invalid(case):
    """A configuration file that cannot be used is an error, wherever it is on the way to a selected test"""
    rng = case.rng
    world = build(case)
    dirs, suites, local, files = world
    cands = [d for d in dirs if d not in suites and (lambda s: l08.under(d, s.src))(l08.owner(suites, d, True))]
    s = suites["s"]
    cands = cands or [s.src]
    d = rng.choice(cands)
    text = rng.choice(["patterns = [", "patterns = \"*.t\"", "patterns = [\"a**\"]", "exclude = [\"[\"]", "env = 3", "[env]\nA = 1", "[env\n", "substitutions = [\"a\"]", "available_features = \"x\"", "[format.nope]", "format = 1",
                       "[format.shtest]\nshell = 3", "[format.shtest]\npipefail = \"yes\"", "=", "[substitutions]\n\"%x\" = [1]", "available_features = [1]", "[env]\nA = \"1\"\nA = \"2\"", "\x00", b"\xff\xfe = 1"])
    case.write(os.path.join(d, "lit.local.toml"), text)
    under = [x for x in dirs if l08.under(x, d) and l08.owner(suites, x, True) is l08.owner(suites, d, True)] + [p for p in files if l08.under(p, d) and l08.owner(suites, p, False) is l08.owner(suites, d, True)]
    target = rng.choice([d, l08.owner(suites, d, True).dir] + under)
    cmd = rng.choice(["run", "run", "show-tests", "show-suites"])
    res = case.run(["lit", cmd, target])
    case.note("%r in %s, request %s" % (text, d, target))
    case.ensure(res.rc == 1, "an invalid configuration file has to be an error", repr(text), res, l08.tree_text(case))
    case.ensure(not case.events(), "tests ran despite an invalid configuration file", res)
    case.evaluated((text, cmd, target == d))

def search_path(case):
    """--path comes first in PATH for all tests, in the order given, and PATH may be configured"""
    rng = case.rng
    for i, d in enumerate(["p1", "p2", "p3"]):
        os.makedirs(os.path.join(case.root, d))
        for tool in rng.sample(["ta", "tb", "tc"], 2):
            case.write("%s/%s" % (d, tool), "#!/bin/sh\necho %s.%s.$1 >> \"$VLOG\"\nprintf '%%s\\n' \"$PATH\" >> \"$VDIR/paths\"\n" % (d, tool), 0o755)
    tail = os.environ["PATH"] + rng.choice(["", "", ":rel/dir", ":/no/such/dir:", "::/x", ":.", ":/a b/c", ":é"])
    conf = rng.choice([None, None, "p3"])
    fmt = rng.choice(["shtest", "executable"])
    env = "[env]\nPATH = %s\n" % toml_str(os.path.join(case.root, conf) + ":" + tail) if conf else ""
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n" + (env if rng.random() < .5 else "") + "[format.%s]\n" % fmt)
    has_env = "PATH" in open(os.path.join(case.root, "s/lit.suite.toml")).read()
    case.write("s/d/lit.local.toml", env if not has_env else "")
    given = rng.sample(["p1", "p2", "p3"], rng.choice([0, 1, 2, 3]))
    want, status = [], {}
    for f, d in (("a.t", ""), ("b.t", "d/")):
        tool = rng.choice(["ta", "tb", "tc"])
        case.write("s/" + d + f, "#!/bin/sh\n# RUN: %s %s\n%s %s\n" % (tool, f, tool, f), 0o755)
        order = given + ([conf] if conf and (has_env or d) else [])
        hit = next((p for p in order if os.path.exists(os.path.join(case.root, p, tool))), None)
        if hit:
            want.append("%s.%s.%s" % (hit, tool, f))
        status["s::" + d + f] = "PASS" if hit else "FAIL"
    args = []
    for g in given:
        args += ["--path", g]
    res = case.run(["lit", "run"] + args + ["s"], env={} if conf else {"PATH": tail})
    check_report(case, res, status)
    log = os.path.join(case.dir, "paths")
    for p in open(log).read().splitlines() if os.path.exists(log) else []:
        case.ensure(p == tail or p.endswith(":" + tail) or conf and p.endswith(":" + os.environ["PATH"]), "PATH is %r, although %r was given" % (p, tail), res)
    case.ensure(sorted(case.events()) == sorted(want), "other tools were found: %r instead of %r" % (case.events(), want), res, env)
    case.evaluated((given, conf, fmt, has_env))

def sizes(case):
    """More environment variables, features, substitutions, levels, suites, search paths and longer names than a fixed limit would allow"""
    rng = case.rng
    fmt = rng.choice(["shtest", "executable"])
    nenv, nfeat, nsub = rng.choice([1, 20, 70, 150]), rng.choice([1, 20, 70, 300]), rng.choice([1, 20, 70, 150])
    npath, depth, nsuites = rng.choice([0, 3, 9, 20, 40]), rng.choice([1, 5, 12, 25]), rng.choice([1, 6, 20, 70])
    for i in range(npath):
        case.write("p%d/tool%d" % (i, i), "#!/bin/sh\necho tool%d.$1 >> \"$VLOG\"\n" % i, 0o755)
        # the first one that is given wins
        case.write("p%d/common" % i, "#!/bin/sh\necho common%d.$1 >> \"$VLOG\"\n" % i, 0o755)
    env = {"VE%d" % i: "v%d" % i + rng.choice(["", "", "x" * 300, "y" * 9000]) for i in range(nenv)}
    feats = ["f%d" % i + rng.choice(["", "-" + "z" * 200]) for i in range(nfeat)]
    subs = {"%%{s%d}" % i: "w%d" % i + rng.choice(["", "x" * 300]) for i in range(nsub)}
    # the settings are spread over the suite and the levels
    levels = [""] + ["/".join(["l%d" % j for j in range(k + 1)]) for k in range(depth)]
    confs = {l: {"env": {}, "substitutions": {}, "available_features": []} for l in levels}
    for k, v in env.items():
        confs[rng.choice(levels)]["env"][k] = v
    for k, v in subs.items():
        confs[rng.choice(levels)]["substitutions"][k.replace("{", "\\{").replace("}", "\\}")] = v
    for f in feats:
        confs[rng.choice(levels)]["available_features"].append(f)
    body = "#!/bin/sh\n"
    want, status = [], {}
    name = rng.choice(["t.t", "n" * 100 + ".t", "/".join(["d" * 60] * rng.choice([1, 4, 8])) + "/t.t"])
    cmds = ["echo E.%s >> \"$VLOG\"" % "".join("[${VE%d-unset}]" % i for i in sorted({0, nenv - 1, nenv // 2}))]
    events = ["E." + "".join("[%s]" % env["VE%d" % i] for i in sorted({0, nenv - 1, nenv // 2}))]
    cmds.append("echo $(env | grep -c '^VE[0-9]*=') >> \"$VLOG\"")
    events.append(str(nenv))
    for i in sorted({0, npath - 1, npath // 2}) if npath else []:
        cmds.append("tool%d x" % i)
        events.append("tool%d.x" % i)
    if npath:
        cmds.append("common y")
    order = list(range(npath))
    rng.shuffle(order)
    if npath:
        events.append("common%d.y" % order[0])
    if fmt == "shtest":
        body += "# REQUIRES: %s\n" % " && ".join(feats[i] for i in sorted({0, nfeat - 1, nfeat // 2}))
        for c in cmds:
            body += "# RUN: %s\n" % c
        for i in sorted({0, nsub - 1, nsub // 2}):
            body += "# RUN: echo 'S.%%{s%d}' >> \"$VLOG\"\n" % i
            events.append("S." + subs["%%{s%d}" % i])
    else:
        body += "\n".join(cmds) + "\n"
    for k in range(nsuites):
        d = "s/s%d" % k if k else "s"
        last = k in (0, nsuites - 1)
        for l in levels if last else [""]:
            c = dict(confs[l])
            c["format"] = None
            head = ""
            if l == "":
                head = "name = \"n%d\"\npatterns = [\"*.t\"]\n" % k
            text = toml({x: v for x, v in c.items() if v}, head)
            if l == "":
                text += "[format.%s]\n" % fmt
            case.write(os.path.join(d, l, "lit.local.toml" if l else "lit.suite.toml"), text)
        if last:
            p = os.path.join(levels[-1], name)
            case.write(os.path.join(d, p), body, 0o755)
            want += events
            status["n%d::%s" % (k, p)] = "PASS"
            # and one above, which has only what the suite sets
            case.write(os.path.join(d, "u.t"), "#!/bin/sh\n# RUN: echo $(env | grep -c '^VE[0-9]*=')u >> \"$VLOG\"\n" + ("echo $(env | grep -c '^VE[0-9]*=')u >> \"$VLOG\"\n" if fmt == "executable" else ""), 0o755)
            want.append("%du" % len(confs[""]["env"]))
        else:
            case.write(os.path.join(d, "u.t"), "#!/bin/sh\n# RUN: echo k%d >> \"$VLOG\"\n" % k + ("echo k%d >> \"$VLOG\"\n" % k if fmt == "executable" else ""), 0o755)
            want.append("k%d" % k)
        status["n%d::u.t" % k] = "PASS"
    args = []
    for i in order:
        args += ["--path", "p%d" % i]
    what = "%s, %d variables, %d features, %d substitutions, %d search paths, %d levels, %d suites, name %s" % (fmt, nenv, nfeat, nsub, npath, depth, nsuites, name)
    case.note(what)
    res = case.run(["lit", "run"] + args + ["s"], limit=120)
    check_report(case, res, status)
    got = case.events()
    case.ensure(sorted(got) == sorted(want), "the tests observed something else: %s" % str(multiset_diff(got, want))[:600], res, what)
    case.evaluated(what)

STREAMS = [("sizes", 40, 400, sizes), ("tree", 200, 2500, tree), ("invalid", 80, 600, invalid), ("path", 60, 500, search_path)]
