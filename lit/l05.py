from base import *
from model import *
from l01 import observe

RULE = ("One case is a suite with generated available features, whose tests carry generated REQUIRES, UNSUPPORTED and XFAIL conditions (shell tests) or a list of unsupported conditions (executable tests), some malformed; "
        "statuses and logged executions are compared with the value of the conditions. Non-trivial: by conditions and features.")
ASSUMPTIONS = ["the features provided on this platform are those that the documentation of lit lists for Linux on x86_64"]

FEATURES = ["a", "aa", "ab", "a.b", "axb", "x-1", "x-2", "c++", "opt=1", "opt=2", "_", "long_name.with-all+of=it", "TRUE", "True", "9"]
ALWAYS = ["system-linux", "native", "x86_64-linux", "target-x86_64"]
PATTERNS = ["{{a}}", "{{a.*}}", "{{.*}}b", "a{{.}}b", "{{x-[12]}}", "x-{{1|2}}", "{{x}}-{{2}}", "opt={{[^1]}}", "opt{{.}}1", "{{system-(linux|windows)}}", "nat{{ive}}", "{{(?i)true}}", "{{T..E}}", "{{a|b}}", "{{b|a}}", "{{.}}", "{{}", "{{[0-9]+}}", "{{a{2}b?}}", "c{{\\+}}+", "c{{[+]+}}"]

def value(e, have):
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "var":
        return e[1] in have
    if k == "pat":
        parts = re.split(r"(\{\{.*?\}\})", e[1])
        rx = "".join("(?:%s)" % p[2:-2].replace("(?i)", "") if p.startswith("{{") else re.escape(p) for p in parts)
        return any(re.fullmatch(rx, h, re.I if "(?i)" in e[1] else 0) for h in have)
    if k == "not":
        return not value(e[1], have)
    a, b = value(e[1], have), value(e[2], have)
    return (a and b) if k == "and" else (a or b)

def text(rng, e, level=0):
    k = e[0]
    sp = lambda: rng.choice(["", " ", " ", "  ", "\t"])
    mine = {"or": 0, "and": 1}.get(k, 2)
    if k == "lit":
        s = "true" if e[1] else "false"
    elif k in ("var", "pat"):
        s = e[1]
    elif k == "not":
        s = "!" + sp() + text(rng, e[1], 2)
    else:
        s = text(rng, e[1], mine) + sp() + {"or": "||", "and": "&&"}[k] + sp() + text(rng, e[2], mine + rng.randint(0, 1))
    if mine < level or rng.random() < .1:
        s = "(" + sp() + s + sp() + ")"
    return s

def expr(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < .35:
        r = rng.random()
        if r < .15:
            return ("lit", rng.random() < .5)
        if r < .7:
            return ("var", rng.choice(FEATURES + ALWAYS + ["missing", "trueish"]))
        return ("pat", rng.choice([p for p in PATTERNS if p != "{{}"]))
    if r < .55:
        return ("not", expr(rng, depth - 1))
    return (rng.choice(["and", "or"]), expr(rng, depth - 1), expr(rng, depth - 1))

MALFORMED = ["", "a &&", "&& a", "a b", "(a", "a)", "a & b", "a | b", "!", "a !b", "{{a", "{{}}", "{{(}}", "{{[}}", "a {{b}}", "{{a}} b", "a || || b", "()", "a:b", "a/b", "é", "\"a\"", "a = b", "not a", "a and b", "* || a", "!*", "a == b", "{{*}}", "{a}}"]

def conditions(rng, have, bias):
    """A list of conditions, biased to a value: (directive contents, whether all are true, whether any is)"""
    vals, out = [], []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if rng.random() < .93 else rng.randint(4, 12)):
        for _ in range(20):
            e = expr(rng, rng.choice([0, 1, 2, 3]))
            v = value(e, have)
            if v == bias or rng.random() < .12:
                break
        vals.append(v)
        out.append(text(rng, e))
    return out, all(vals), any(vals)

def directives(rng, name, conds):
    """Spread over lines or commas, and sometimes over continued lines"""
    lines, cur = [], []
    split = rng.choice([0, .1, .5, .5, 1])
    for c in conds:
        cur.append(c)
        if rng.random() < split:
            lines.append(cur)
            cur = []
    if cur:
        lines.append(cur)
    return [name + ":" + rng.choice([" ", "", "  "]) + rng.choice([", ", ",", " , "]).join(l) + rng.choice(["", "", "  "]) for l in lines]

def features(rng):
    fs = [f for f in FEATURES if rng.random() < rng.choice([.2, .5])]
    return fs, set(fs) | set(ALWAYS)

def suites(case):
    rng = case.rng
    helpers(case)
    fs, have = features(rng)
    s = Suite("v", "v", extra="available_features = %s\n" % toml_list(fs))
    for i in range(40):
        t = T("T%d" % i)
        req, allreq, _ = conditions(rng, have, True)
        uns, _, anyuns = conditions(rng, have, False)
        xf, _, anyxf = conditions(rng, have, rng.random() < .5)
        bad = rng.random() < .1
        if bad:
            rng.choice([req, uns, xf]).append(rng.choice(MALFORMED))
        lines = directives(rng, "REQUIRES", req) + directives(rng, "UNSUPPORTED", uns) + directives(rng, "XFAIL", xf)
        if rng.random() < .1:
            lines.append("XFAIL: *")
            anyxf = True
        ok = rng.random() < .6
        lines += ["RUN: %s T%d x" % ("rec" if ok else "recf", i)]
        rng.shuffle(lines)
        t.content = "\n".join(rng.choice(COMMENTS) + l for l in lines) + "\n"
        if bad:
            t.status, t.malformed = "UNRESOLVED", True
        elif not allreq or anyuns:
            t.status = "UNSUPPORTED"
        else:
            t.status = {(True, False): "PASS", (True, True): "XPASS", (False, False): "FAIL", (False, True): "XFAIL"}[ok, anyxf]
            t.events = ["T%d\x1fx" % i]
        s.tests["t%d.t" % i] = t
        case.evaluated((tuple(fs), t.content))
        case.count("conditions evaluated", len(req) + len(uns) + len(xf))
    s.write(case)
    observe(case, [s], ["-j8", "v"], no_execute=False)

def executable(case):
    rng = case.rng
    fs, have = features(rng)
    conds, _, anyuns = conditions(rng, have, case.index % 3 == 0)
    s = Suite("v", "v", extra="available_features = %s\n" % toml_list(fs), fmt="executable", fmt_extra="unsupported = %s\n" % toml_list(conds))
    for i in range(4):
        t = exec_test(rng, "T%d" % i)
        if anyuns:
            t.status, t.events = "UNSUPPORTED", []
        s.tests["t%d.t" % i] = t
    s.write(case)
    observe(case, [s], ["v"])
    case.evaluated((tuple(fs), tuple(conds)))
    case.count("unsupported suites" if anyuns else "supported suites")

def malformed(case):
    """Each malformed condition, in each place"""
    rng = case.rng
    helpers(case)
    m = MALFORMED[case.index % len(MALFORMED)]
    s = Suite("v", "v")
    i = 0
    for d in ("REQUIRES", "UNSUPPORTED", "XFAIL"):
        for c in (m, m + ", native", "native, " + m, "nothing," + m):
            t = T("T%d" % i)
            t.status, t.malformed = "UNRESOLVED", True
            t.content = "%s: %s\nRUN: rec T%d x\n" % (d, c, i)
            s.tests["t%d.t" % i] = t
            i += 1
    s.write(case)
    observe(case, [s], ["v"])
    case.evaluated(m)
    # in the configuration of executable tests
    e = Suite("e", "e", fmt="executable", fmt_extra="unsupported = %s\n" % toml_list(rng.choice([[m], ["nothing", m], [m, "native"]])))
    e.tests["a.t"] = exec_test(rng, "E", only="PASS")
    e.write(case)
    case.clear_events()
    res = case.lit("e")
    case.ensure(res.rc != 0 and not case.events(), "a malformed condition of the suite is ignored", res)
    case.evaluated(("config", m))

STREAMS = [("suites", 40, 800, suites), ("executable", 40, 500, executable), ("malformed", len(MALFORMED), len(MALFORMED) * 3, malformed)]
