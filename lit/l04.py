from base import *
from model import *

RULE = ("One case is a suite with generated substitutions (configuration, local configuration, format, DEFINE and REDEFINE) and file names full of special characters; every command logs the text "
        "it got, which is compared with that of a reference expander. Non-trivial: every command with a percent sign, by text and substitutions.")
ASSUMPTIONS = ["texts and values have no quotes, so that what a command gets is what the expansion gave", "values neither begin nor end with a single percent sign, and %% is paired from the left"]

PROTECT = "\x00"
def protect(s):
    return s.replace("%%", PROTECT)

def expand(text, subs):
    """The text after the substitutions, an ordered list of (pattern, value, groups?), were applied one after the other"""
    for pat, val in subs:
        text = protect(text)
        # in values, references to groups are written as \g<..> by the generator
        if callable(val):
            text = re.sub(pat, val, text)
        else:
            text = re.sub(pat, lambda m: val, text)
    return protect(text).replace(PROTECT, "%")

SOUP = ["%s", "%S", "%t", "%%", "%%s", "%%%s", "%basename_t", "%b", "%{a}", "%{ab}", "%{b-c}", "%{x:1}", "%{_}", "%{a", "a}", "%", "%x", "%foo", "%foobar", "$1", "$HOME", "${0}", "$$", "\\", "\\1", "\\g<1>", " ", "  ", "a", "s", "t", "T",
        "{", "}", "[", "(", ".*", "%{pathsep}", "%{fs-sep}", "%{fs-src-root}", "&", ";", "|", "#", "!", "é", "日", "#_MARKER_#", "%{A}", "%%{a}", "%{}", "%T", "%p", "%-", "=", "~", "@name", "sub", "%d1", "<k=v>", "<k=%s>"]
# what may be in a value that is not to be expanded itself
PLAIN = ["v", "$1", "$0", "${name}", "\\", "\\n", "a b", "é", "{", "}", "(.*)", "[", "^", "x%%y", "%%z", "u%%v", "u%%s", "%%foo", "&", "$", "*", "?", "|", "#", "=", "@"]

def rtext(rng, n, pool):
    t = "".join(rng.choice(pool) for _ in range(rng.randint(1, n)))
    return t
def value(rng, refs=()):
    v = "".join(rng.choice(PLAIN) if rng.random() < .7 or not refs else rng.choice(refs) for _ in range(rng.randint(1, 3))).strip()
    if not v or v.startswith("%") and not v.startswith("%%") and not refs or v.endswith("%") or v.endswith("\\"):
        return "V" + v.strip("%\\ ") + "V"
    if rng.random() < .03:
        return "L" * rng.choice([100, 260, 5000]) + v
    return v

# configuration: (pattern as TOML key, python pattern, value maker)
CONFIG = [("%foobar", "%foobar"), ("%foo", "%foo"), ("%x", "%x"), (r"%\{A\}", r"%\{A\}"), (r"%\{b-c\}", r"%\{b-c\}"), ("@name", "@name"), (r"%p\b", r"%p\b"), ("sub", "sub"), (r"%d\d", r"%d[0-9]"), ("%-", "%-"), (r"=%\{a-name-of-some-length\}", r"=%\{a-name-of-some-length\}")]
SHOWN = ["%foobar", "%foo", "%x", "%{A}", "%{b-c}", "@name", "%p", "sub", "%d7", "%-", "=%{a-name-of-some-length}"]
MANY = ["%%k%02d" % i for i in range(60)]
NAMES = ["a", "ab", "b-c", "x:1", "_", "A", "abc", "a_b", "Z9", "a-name-of-some-length"]

def gen_config(rng, case):
    """Ordered (pattern, value) of one configuration"""
    out = []
    refs = ["%s", "%x", "%foo", "%{pathsep}", "%t", "@name"]
    def val():
        return value(rng, refs) if rng.random() < .9 else ""
    for key, pat in rng.sample(CONFIG, rng.randint(0, 5)):
        out.append((key, pat, val()))
    if case.many:
        for k in rng.sample(MANY, rng.randint(20, len(MANY))):
            out.append((k, k, value(rng, MANY) if rng.random() < .2 else val()))
        rng.shuffle(out)
    if rng.random() < .3:
        # groups can be referred to
        out.append((r"<(?<key>\w+)=([^>]*)>", r"<(?P<key>\w+)=([^>]*)>", None))
    return out

def gval(v):
    return v if v is not None else "[${key}|$2|$0|$$]"
def fn(v):
    return v if v is not None else (lambda m: "[%s|%s|%s|$]" % (m.group(1), m.group(2), m.group(0)))

def table(name, conf):
    return "[%s]\n" % name + "".join("%s = %s\n" % (toml_str(k), toml_str(gval(v))) for k, _, v in conf) if conf else ""

def merge(*confs):
    """Later configurations override the value, the order is that of the first occurrence"""
    d = {}
    for conf in confs:
        for _, pat, v in conf:
            d[pat] = fn(v)
    return list(d.items())

DEFAULTS = [(None, r"%\{pathsep\}", ":"), (None, r"%\{fs-src-root\}", "/"), (None, r"%\{fs-tmp-root\}", "/"), (None, r"%\{fs-sep\}", "/")]

def fname(rng):
    return "".join(rng.choice(["a", "%", "%s", "%t", "%%", "$1", " ", "é", "+", "(", "[x]", "{a}", "%{a}", "#", "b", "&", "\\", "~", "=", "-", "%S", "#_MARKER_#"]) for _ in range(rng.randint(1, 3))).strip() or "n"

def soup(case):
    rng = case.rng
    helpers(case)
    sdir = rng.choice(["p", "p" + fname(rng).lstrip(".") + "d", "p"])
    local = rng.choice(["", "", "sub"])
    case.many = rng.random() < .12
    conf, lconf, extra = gen_config(rng, case), gen_config(rng, case) if local else [], gen_config(rng, case) if rng.random() < .4 else []
    names = {}
    toml = "name = \"p\"\npatterns = [\"*.t\"]\n" + table("substitutions", conf) + "[format.shtest]\n" + table("format.shtest.extra_substitutions", extra)
    case.write(sdir + "/lit.suite.toml", toml)
    if local:
        case.write(sdir + "/" + local + "/lit.local.toml", table("substitutions", lconf))
    tests = []
    for i in range(6):
        d = rng.choice(["", local, local])
        f = "%s%d.t" % (fname(rng), i)
        path = os.path.join(d, f)
        full = os.path.join(case.root, sdir, path)
        id = "I%d" % i
        base = merge(DEFAULTS, conf, lconf if d else [], extra)
        builtin = [("%s", full.replace("%", "%%")), ("%S", os.path.dirname(full).replace("%", "%%")), ("%t", "\x01" + f.replace("%", "%%") + ".tmp"), ("%basename_t", f.replace("%", "%%"))]
        defs, redefs = [], {}
        lines, events, status = [], [], "PASS"
        for step in range(rng.randint(2, 7)):
            r = rng.random()
            if r < .25:
                n = rng.choice(NAMES)
                pat = r"%\{" + re.escape(n).replace(r"\_", "_") + r"\}"
                known = [p for p, _ in defs] + [p for p, _ in base]
                pat = next((p for p in known if p == r"%\{" + n + r"\}"), r"%\{" + n + r"\}")
                v = value(rng, ["%{" + m + "}" for m in NAMES] + ["%s", "%t", "%x", "%%"])
                re_ = rng.random() < (.8 if pat in known else .03)
                if (pat in known) != re_ or re_ and any(k != pat and pat in k for k in known):
                    # an error (the name is new or not, or is part of another one), found when the script is prepared
                    lines.append("%s: %%{%s} = %s" % ("REDEFINE" if re_ else "DEFINE", n, v))
                    status = "UNRESOLVED"
                    break
                sp = rng.choice(["", " "])
                if rng.random() < .3 and " " in v.strip():
                    a, b = v.split(" ", 1)
                    lines.append("# %s: %%{%s}%s=%s%s\\" % ("REDEFINE" if re_ else "DEFINE", n, sp, sp, a))
                    lines.append("# %s:   %s" % ("REDEFINE" if re_ else "DEFINE", b))
                else:
                    lines.append("%s%s: %%{%s}%s=%s%s" % (rng.choice(COMMENTS), "REDEFINE" if re_ else "DEFINE", n, sp, sp, v))
                if not re_:
                    defs.insert(0, (pat, v))
                elif pat in [p for p, _ in defs]:
                    defs = [(p, v if p == pat else w) for p, w in defs]
                else:
                    base = [(p, v if p == pat else w) for p, w in base]
                continue
            pool = SOUP if not case.many else SOUP + MANY
            if rng.random() < .5:
                # mostly what is to be replaced
                pool = rng.sample(pool, 6) + ["%{" + n + "}" for n in NAMES if r"%\{" + n + r"\}" in [p for p, _ in defs + base]] + [c for c, (k, _) in zip(SHOWN, CONFIG) if k in [x[0] for x in conf + lconf + extra]]
            text = rtext(rng, 9 if rng.random() < .7 else 2, pool)
            if "'" in text:
                continue
            lines.append("// RUN: rec %s '%s'" % (id, text))
            want = expand("rec %s '%s'" % (id, text), defs + base + builtin)
            events.append((text, want))
        if status == "UNRESOLVED":
            events = []
        elif not events:
            lines.append("RUN: rec %s 'x%%%%y'" % id)
            events.append(("x%%y", expand("rec %s 'x%%%%y'" % id, defs + base + builtin)))
        case.write(os.path.join(sdir, path), "\n".join(lines) + "\n")
        tests.append((id, "p::" + path, lines, events, status))
    res = case.lit("-j%d" % rng.choice([1, 4]), sdir)
    log = case.events()
    case.note(repr(tests[0][2]) + " " + repr(toml))
    for id, name, lines, events, status in tests:
        got = [e for e in log if e.startswith(id + "\x1f")]
        detail = "%s %s\ntest: %s\nsuite: %s\nlocal: %s\nlogged: %r" % (name, status, "\n      ".join(map(repr, lines)), toml, lconf, got)
        case.ensure(len(got) == len(events), "%d commands ran instead of %d" % (len(got), len(events)), detail, res)
        for g, (text, want) in zip(got, events):
            m = re.fullmatch(r"rec %s '(.*)'" % id, want, re.S)
            if m is None:
                # the name of the command itself was replaced
                continue
            w, g = m.group(1), g[len(id) + 1:]
            # the temporary directory of a test has a name we do not know, but it has only one
            parts = w.split("\x01")
            rx = re.escape(parts[0])
            for k, p in enumerate(parts[1:]):
                # TempDir: TMPDIR/<suite>.XXXX/<dir>/<test>.XXXX/
                rx += (r"(?P<t>%s/[^\x1f]*?/)" % re.escape(case.tmp) if k == 0 else "(?P=t)") + re.escape(p)
            case.ensure(re.fullmatch(rx, g, re.S) is not None, "the command %r got %r instead of %r" % (text, g, w), detail)
            case.evaluated((text, w.replace(case.dir, ""), toml) if "%" in text else None)
            case.count("commands compared")
    check_report(case, res, {name: status for _, name, _, _, status in tests})

def temporary(case):
    """%t is usable, the same in all commands of a test, and in a directory of its own"""
    rng = case.rng
    helpers(case)
    wd = rng.choice(["", "work", "work"])
    src = rng.choice(["", "src", "src/work"])
    for d in ["p/work", "p/src/work/work"] if wd else []:
        os.makedirs(os.path.join(case.root, d))
    # both of the paths are relative to the directory of the suite's file
    s = Suite("p", "p", extra=('working_dir = "work"\n' if wd else "") + ('source_dir = "%s"\n' % src if src else ""))
    for i in range(5):
        t = T("T%d" % i)
        t.status = "PASS"
        t.content = "RUN: test ! -e '%t' && echo 'T{0}' > '%t' && rec T{0} '%t' '%basename_t' \"$(pwd)\"\nRUN: cat '%t' | grep -x T{0}\nRUN: test \"$(dirname '%t')\" != \"$(pwd)\" && test -z \"$(ls -A \"$(dirname '%t')\" | grep -v '^%basename_t')\"\nRUN: rec T{0} '%t'\n".format(i)
        s.tests["%s%s.t" % (rng.choice(["", "d/", "d/e/"]), rng.choice(["same", "x", "y"]) + rng.choice(["", str(i)]))] = t
    case.write("p/lit.suite.toml", s.toml())
    for p, t in s.tests.items():
        case.write(os.path.join("p", src, p), t.content)
    res = case.lit("-j4", "p")
    check_report(case, res, {s.full(p): "PASS" for p in s.tests})
    seen = set()
    for p, t in s.tests.items():
        a, b = [e.split("\x1f")[1:] for e in case.events() if e.startswith(t.id + "\x1f")]
        case.ensure(a[0] == b[0], "%%t changed between two commands: %r %r" % (a, b), res)
        case.ensure(a[0].startswith(a[2] + "/") and a[0] not in seen, "%%t is not a path of its own below the working directory: %r" % (a,), res)
        case.ensure(os.path.basename(a[0]).startswith(a[1]), "%%basename_t is not the name of %%t: %r" % (a,), res)
        case.ensure(a[2].startswith(case.tmp + "/") if not wd else a[2] == os.path.join(case.root, "p/work"), "the working directory is not the one configured: %r" % (a,), res)
        seen.add(a[0])
        case.evaluated((p, wd, src, case.index))

STREAMS = [("soup", 300, 3000, soup), ("temporary", 20, 200, temporary)]
