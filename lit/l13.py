import fcntl, pty, select, struct, termios
from base import *
from model import *

RULE = ("One case is a generated tree of suites, configurations, test files (soups of directives, substitutions, punctuation and multi-byte characters, arbitrary bytes, hostile names, hostile outputs), or a command line, run by the built tool, on a pipe or a terminal. "
        "Observed: no crash, the exit statuses of the documentation, every test reported exactly once, bystander tests run exactly once and pass. Non-trivial: by the generated text.")
ASSUMPTIONS = ["standard output and error stay open, and the current directory exists"]

# nothing here can have an effect outside of the directory in which it runs
PIECES = ["RUN:", "RUN: ", "# RUN: ", "// RUN: ", "REQUIRES: ", "REQUIRES:", "UNSUPPORTED: ", "XFAIL: ", "XFAIL:", "DEFINE: ", "REDEFINE: ", "ALLOWED_RETRIES: ", "END.", "é RUN: ", "😀RUN:", "RUN:RUN:", "XFAIL: *", "REQUIRES: native",
          "DEFINE: %{a}=", "REDEFINE: %{a}=", "DEFINE: %{b} = %{a}", "RUN: echo %{a}", "RUN: true", "RUN: echo a \\\n", "RUN: \\\n", "# RUN: \\\n// RUN:"]
WORDS = ["echo ", "true ", "false ", "true\n", "%(line)", "%(line+1)", "%(line - 2)", "%(line+99999999999999999999)", "%(line-18446744073709551615)", "%(line", "line)", "é", "😀", "ß", "\u2028", "\u00a0", "\u0300", "%s", "%S", "%t", "%%", "%", "%basename_t", "%{a}", "%{b}", "%{", "}", "%{é}", "%{a", "%{lit}",
         "a", "=", "==", "&&", "||", "!", "(", ")", ",", ", ", "*", "{{", "}}", "{{a.*}}", "{{(}}", "native", "system-linux", "3", "-1", "1.5", "99999999999999999999", "0x10", "\\", "\\\\", "'", "\"", ";", ":", "#", " ", "\t", "\0", "\x1b[31m", "\r", "test", "1", "END.", "RUN:", "not ", "$?", "$x", "{", "[", "]", "~", "@", "^"]
ENDS = ["\n", "\n", "\n", "\n", "\r\n", "\\\n", "\\\r\n", "\n\n", "", "\r", "\u2028"]

def soup(rng, lines=8):
    out = []
    tame = rng.random() < .6
    if tame and rng.random() < .7:
        out.append("DEFINE: %{a} = x\n")
    for _ in range(rng.randint(0, lines)):
        if tame:
            k = rng.choice(["RUN: ", "# RUN: ", "é RUN: echo", "RUN: echo ", "RUN: echo ", "RUN: echo ", "RUN: true ", "RUN: true ", "DEFINE: %{b} = ", "REDEFINE: %{a} = ", "XFAIL: ", "REQUIRES: ", "UNSUPPORTED: ", "ALLOWED_RETRIES: "])
            if "XF" in k or "REQ" in k or "UNS" in k:
                v = rng.choice(["*", "native", "!native", "a && b", "{{n.*}}", "a, native", "!a", rng.choice(["é", ""])])
            elif "RET" in k:
                v = rng.choice(["0", "1", "2", "2", "1", rng.choice(["x", "99999999999999999999"])])
            else:
                v = "".join(rng.choice(rng.choice([WORDS, ["%(line)", "%{a}", "%s", "é", "%(line+1)", "%t", "x"]])) for _ in range(rng.randint(0, 4))).replace("\\", "")
            out.append(k + v + rng.choice(["\n", "\n", "\n", "\r\n", " \\\n" + k.split(":")[0] + ": x\n"]))
            continue
        if rng.random() < .8:
            out.append(rng.choice(PIECES))
        for _ in range(rng.randint(0, 5)):
            out.append(rng.choice(WORDS))
        out.append(rng.choice(ENDS))
    s = "".join(out).encode("utf-8")
    r = rng.random()
    if r < .08 and s:
        k = rng.randint(0, len(s))
        s = s[:k] + bytes(rng.choice([0x80, 0xff, 0xc3, 0xf0, 0, 0xed, 0xe2]) for _ in range(rng.randint(1, 3))) + s[k:]
    elif r < .1:
        s = rng.randbytes(rng.randint(0, 200))
    elif r < .12:
        s = b"RUN: echo " + rng.choice([b"x", b"\xc3\xa9", b"%%", b"(", b"%{a}", b"\\\nRUN: "]) * rng.choice([10, 1000, 30000])
    elif r < .14:
        s = rng.choice([b"XFAIL: ", b"REQUIRES: ", b"UNSUPPORTED: "]) + rng.choice([b"!", b"(", b"a && ", b"a || ", b"{{", b"a,"]) * rng.choice([10, 300, 5000]) + b"a\nRUN: true\n"
    elif r < .16:
        s = b"\xef\xbb\xbf" + s
    return s

def accounted(case, res, names, good):
    """Every test is reported exactly once, and the bystanders have passed"""
    rep = Report(res)
    got = [n for _, n in rep.lines]
    case.ensure(sorted(got) == sorted(names), "the tests reported are not those of the suite: %s" % multiset_diff(names, got), res)
    case.ensure(rep.total == len(names), "reported %s tests instead of %d" % (rep.total, len(names)), res)
    status = {n: t for t, n in rep.lines}
    case.ensure(res.rc == (1 if any(t in FAILING for t in status.values()) else 0), "exit status %d does not follow from the results" % res.rc, res)
    for n in good:
        case.ensure(status[n] == "PASS", "the bystander %s did not pass but is %s" % (n, status[n]), res)
    events = [e.split("\x1f")[0] for e in case.events()]
    case.ensure(sorted(events) == sorted(good.values()), "the bystanders executed are %s" % multiset_diff(list(good.values()), events), res)
    for t in status.values():
        case.count("tests " + t)
    return status

def show(rng):
    return [a for a in (["-v"], ["-a"], ["-q", "-v"], ["-j", str(rng.randint(1, 4))]) if a[0] != "-q" and rng.random() < .5]

def tests(case):
    rng = case.rng
    helpers(case)
    fmt = rng.choice(["[format.shtest]\n", "[format.shtest]\n", "[format.shtest]\npipefail = true\nshell = \"bash\"\n", ""])
    subs = rng.choice(["", "", "[substitutions]\na = \"é\"\n\"%x\" = \"%%\"\n", "[substitutions]\n'%\\{b\\}' = \"%{a}\"\n\"[7-9]\" = \"%%\"\n"])
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n" + fmt + subs)
    names, good, key = [], {}, []
    for i in range(rng.randint(2, 10)):
        name = "%d.t" % i
        names.append("s::" + name)
        if rng.random() < .2:
            case.write("s/" + name, "RUN: rec %s\n" % "QWZTYUIOPL"[i])
            good["s::" + name] = "QWZTYUIOPL"[i]
        else:
            b = soup(rng)
            case.write("s/" + name, b)
            key.append(b)
            case.note("%s: %r" % (name, b[:200]))
    flags = [f for a in show(rng) for f in a]
    res = case.lit("--timeout", "30", *flags, "s")
    accounted(case, res, names, good)
    case.evaluated(key or None)
    case.count("soup test files", len(key))
    res = case.run(["lit", "show-tests", "s"])
    case.ensure(res.rc == 0, "show-tests fails", res)

def one_toml(rng):
    # no path here may lead out of the directory of the case: its tests would be executed
    val = lambda d=0: rng.choice([lambda: '"%s"' % rng.choice(["s", "", "é", "*", "a b", ".", "..", "*.t", "[", "**", "***", "{{a}}", "sh", "\\u0000", "x\\ny", "a/b", "%s", "a" * 300]),
                                  lambda: rng.choice(["1", "-1", "true", "false", "1.5", "nan", "1979-05-27", "99999999999999999999", "0x1f"]),
                                  lambda: "[" + ", ".join(val(d + 1) for _ in range(rng.randint(0, 3))) + "]" if d < 3 else "[]",
                                  lambda: "{" + ", ".join("%s = %s" % (rng.choice(["a", "x", "\"é\"", "shtest", "PATH", "\"\"", "\"a=b\"", "\"%s\"", "\"(\""]), val(d + 1)) for _ in range(rng.randint(0, 2))) + "}" if d < 3 else "{}"])()
    keys = ["name", "patterns", "exclude", "env", "substitutions", "available_features", "format", "source_dir", "working_dir", "unknown", "env.A", "substitutions.\"%a\"", "format.shtest.shell", "format.shtest.pipefail", "format.shtest.extra_substitutions", "format.x"] + [rng.choice(["format.executable.unsupported", "format.shtest.pipefail"])]
    if rng.random() < .6:
        keys = [k for k in keys if k not in ("format.x", "env.A", "substitutions.\"%a\"", "format")]
    natural = {"unknown": "1", "format.shtest.shell": '"sh"', "format.shtest.pipefail": "false", "format.shtest.extra_substitutions": '{"%c" = "d"}', "format.executable.unsupported": '["x"]', "name": '"s"', "patterns": '["*.t"]', "exclude": '["*.u"]', "env": '{A = "é"}', "substitutions": '{"%a" = "b"}', "available_features": '["x", "y-z"]', "format": '"shtest"', "source_dir": '"."', "working_dir": '"."', "env.A": '"1"'}
    lines, used = [], set()
    tame = rng.choice([1, .97, .6])
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(keys)
        if k in used and rng.random() < .9:
            continue
        used.add(k)
        lines.append("%s = %s" % (k, natural[k] if k in natural and rng.random() < tame else val()))
    return lines, used

def toml_soup(rng, suite):
    lines, used = one_toml(rng)
    if suite and "name" not in used and rng.random() < .97:
        lines.insert(0, 'name = "n%d"' % rng.randint(0, 3))
    if "patterns" not in used and rng.random() < .8:
        lines.insert(0, 'patterns = ["*.t"]')
    if rng.random() < .15:
        lines.append(rng.choice(["[format.shtest]", "[format.executable]", "[format.nothing]", "[format]", "[env]", "[substitutions]\n\"%a\" = \"b\"", "[[format]]", "# é 😀"]))
    if rng.random() < .1:
        # names much longer than the others, of characters of one to four bytes
        c = rng.choice(["a", "é", "日", "😀", "e\u0301", "ab é"])
        lines.append("[%s]\n%s = %s" % (rng.choice(["env", "substitutions"]), '"%s"' % (c * rng.randint(1, 90)), rng.choice(['"v"', '""', '"%s"' % (c * 60)])))
    s = rng.choice(["\n", "\n", "\n", "\r\n"]).join(lines) + rng.choice(["\n", ""])
    b = s.encode()
    if rng.random() < .1 and b:
        k = rng.randint(0, len(b))
        b = b[:k] + rng.choice([b"\xff", b"\xc3\xa9", b"\0", b"\"", b"]", b"=", b"\n", "😀".encode(), b"'''", b"\\"]) + b[k + rng.randint(0, 3):]
    return b

def configs(case):
    """A broken configuration is refused with a message, or used; whatever is reported adds up"""
    rng = case.rng
    helpers(case)
    key = []
    dirs = rng.sample(["", "a", "a/b", "é", "c d"], rng.randint(1, 4))
    for d in dirs:
        for i in range(rng.randint(0, 2)):
            case.write(os.path.join("s", d, "%d.t" % i), "RUN: rec %s/%d\n" % (d.replace(" ", "_"), i), 0o755)
    for d in {rng.choice(dirs) for _ in range(2)} | {""}:
        b = toml_soup(rng, True)
        key.append(b)
        case.note("%s: %r" % (d, b))
        case.write(os.path.join("s", d, "lit.suite.toml"), b)
    for d in {rng.choice(dirs) for _ in range(rng.randint(0, 2))}:
        b = toml_soup(rng, False)
        key.append(b)
        case.note("%s (local): %r" % (d, b))
        case.write(os.path.join("s", d, "lit.local.toml"), b)
    sel = [os.path.join("s", rng.choice(dirs))] if rng.random() < .3 else ["s"]
    res = case.lit("--timeout", "30", "-v", *sel)
    case.ensure(res.rc in (0, 1, 100), "exit status %d" % res.rc, res)
    rep = Report(res)
    if rep.total is None:
        case.ensure(res.rc != 0 and res.err.strip() != "", "neither results nor a message", res)
        case.ensure(not case.events(), "tests were executed, but there are no results", res)
        case.count("configurations refused")
    else:
        case.ensure(rep.total == sum(n for n, _ in rep.groups.values()) == sum(len(l) for _, l in rep.groups.values()), "the results do not add up", res)
        case.ensure(len(rep.lines) == sum(n for l, (n, _) in rep.groups.items() if l not in ("Excluded", "Skipped")), "the tests reported and the summary differ", res)
        bad = any(t in FAILING for t, _ in rep.lines)
        case.ensure(res.rc == (1 if bad or rep.total == 0 else 0), "exit status %d does not follow from the results" % res.rc, res)
        case.ensure(len(case.events()) <= rep.total, "more executions than tests", res)
        case.count("configurations used")
    for cmd in ("show-tests", "show-suites"):
        more = case.run(["lit", cmd] + sel)
        case.ensure((more.rc == 0) == (rep.total is not None) or res.rc == 1 and "no tests" in res.err.lower() or "selected" in res.err.lower(), "%s ends with %d, but run with %d" % (cmd, more.rc, res.rc), res, more)
    case.evaluated(key)

NAMES = ["a b", " a", "a ", "-a", "--help", "a\nb", "a\tb", "a\x1b[31mb", "é", "e\u0301", "😀", "\u202eabc", "a'b", 'a"b', "a\\b", "a$HOME", "a`id`", "a;b", "a&b", "a|b", "a%sb", "%s", "%%", "%(line)", "a*b", "a?b", "[a]", "{a}", "a#b", "!a", "~", "(", ")", "a=b", "a:b", "a,b", "@", "^", "+", "a" * 200, "\u3000", "\ufeff", "a\rb", "\x7f", "{{x}}", "%{a}", "<a>"]

def names(case):
    """Tests and directories may have any name"""
    rng = case.rng
    helpers(case)
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\", \"**/*.t\"]\n[format.shtest]\n")
    good, odd = {}, 0
    for i, n in enumerate(rng.sample(NAMES, rng.randint(1, 6))):
        d = rng.choice(["", "", rng.choice(NAMES) + "/"])
        path = d + n + ".t"
        if len(path.encode()) > 240 or "s::" + path in good:
            continue
        extra = rng.choice(["", "RUN: test -f '%s' && test -d '%S'\n", "RUN: echo hi > '%t' && test -f '%t'\n", "RUN: cat '%s' | grep RUN\n"]) if "'" not in path else ""
        case.write("s/" + path, "RUN: rec %d\n%s" % (i, extra))
        good["s::" + path] = str(i)
    flags = [f for a in show(rng) for f in a]
    res = case.lit(*flags, "s")
    case.ensure(res.rc == 0, "a test fails for its name", res)
    if not any("\n" in n or "\r" in n for n in good):
        accounted(case, res, list(good), good)
    else:
        case.ensure(sorted(case.events()) == sorted(good.values()), "the tests executed differ", res)
        case.ensure(Report(res).total == len(good), "the number of tests is wrong", res)
    for n in list(good)[:2]:
        case.clear_events()
        res = case.lit("--", "s/" + n[3:])
        case.ensure(res.rc == 0 and case.events() == [good[n]], "the test %r does not run when asked for by its path" % n, res)
    case.evaluated(sorted(good))
    case.count("odd names", len(good))

def bytenames(case):
    """Names which are not UTF-8"""
    rng = case.rng
    helpers(case)
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*\"]\nexclude = [\"*.toml\"]\n[format.shtest]\n")
    n = rng.randint(1, 3)
    made = {b"g.t": "g"}
    for i in range(n):
        name = b"n%d" % i + b"".join(rng.choice([b"a", b"\xff", b"\xc3", b"\x80", b"\xed\xa0\x80", b" "]) for _ in range(rng.randint(1, 4))) + b".t"
        made[name] = "n%d" % i
    for name, id in made.items():
        with open(os.path.join(os.fsencode(case.root), b"s", name), "wb") as f:
            f.write(b"RUN: rec %s\n" % id.encode())
    res = case.lit("-v", "s")
    case.ensure(res.rc in (0, 1), "exit status %d" % res.rc, res)
    # the documentation of the glob patterns says that such names match none
    case.ensure(1 <= Report(res).total <= len(made), "the tests counted", res)
    ev = case.events()
    case.ensure(len(set(ev)) == len(ev) and "g" in ev, "the tests executed: %r" % ev, res)
    case.evaluated(sorted(made))
    case.count("names which are not UTF-8", n)

def outputs(case):
    """Whatever a test prints, its result is reported"""
    rng = case.rng
    helpers(case)
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n[format.%s]\n" % rng.choice(["shtest", "executable"]))
    sh = "[format.shtest]" in open(os.path.join(case.root, "s/lit.suite.toml")).read()
    want = {}
    for i in range(rng.randint(1, 5)):
        data = rng.choice([rng.randbytes(rng.choice([1, 100, 5000])), b"\xff" * 10, b"\x1b[2J\x1b[31m", b"\0" * 100, b"x" * rng.choice([65536, 300000]), b"\n" * 1000, "é😀".encode() * 1000, b"a\rb\r", b"", b"%s {} {0} \\n", b"PASS: s::0.t\nTotal Discovered Tests: 9\n".replace(b"PASS", b"pass")])
        f = case.write("data/%d" % i, data)
        bad = rng.random() < .5
        cmds = ["rec %d" % i] + rng.sample(["cat %s" % f, "cat %s >&2" % f, "cat %s %s" % (f, f), "head -c 7 %s" % f, "exec >&-; true", "printf x", ":"], rng.randint(1, 4)) + (["exit %d" % rng.choice([1, 2, 127, 255])] if bad else ["true"])
        if sh:
            cmds = [c for c in cmds if not c.startswith("exec")]
        body = "".join("RUN: %s\n" % c for c in cmds) if sh else "#!/bin/sh\n" + "\n".join(cmds) + "\n"
        case.write("s/%d.t" % i, body, 0o755)
        want["s::%d.t" % i] = "FAIL" if bad else "PASS"
        case.note(body)
    res = case.lit(*rng.choice([["-v"], ["-a"], [], ["-q"]]), "s")
    rep = [l for l in res.out.split("\n") if l.startswith("Total Discovered Tests: ")]
    case.ensure(rep[-1:] == ["Total Discovered Tests: %d" % len(want)], "the number of tests is wrong", res)
    lines = set(res.out.split("\n"))
    case.ensure(res.rc == (1 if "FAIL" in want.values() else 0), "exit status %d" % res.rc, res)
    case.ensure(all(("  " + n) in lines for n, t in want.items() if t == "FAIL" or not "-q" in res.args), "a test is not listed", res)
    case.ensure(len(case.events()) == len(want), "the tests executed: %r" % case.events(), res)
    case.evaluated(case.notes)
    case.count("hostile outputs", len(want))

def terminal(case):
    """The same on a terminal, which gets colours and a progress bar"""
    rng = case.rng
    helpers(case)
    case.write("s/lit.suite.toml", "name = %s\npatterns = [\"*.t\"]\n[format.shtest]\n" % toml_str(rng.choice(["s", "é", "😀😀", "a b", "{msg}", "\u202e", "x" * 120])))
    bad, n = False, 0
    for i, w in enumerate(rng.sample(NAMES, rng.randint(1, 6))):
        fail = rng.random() < .3
        case.write("s/%s.t" % w, "RUN: rec %d\nRUN: %s\n" % (i, "printf '\\303\\251\\377\\n' && false" if fail else rng.choice(["true", "sleep 0.1", "echo x"])))
        bad, n = bad or fail, n + 1
    args = [LITCHECK, "lit", "run", "--path", case.bin, "-j", str(rng.randint(1, 3))] + rng.choice([[], ["-v"], ["-a"], ["-q"]]) + ["s"]
    rows, cols = rng.choice([(24, 80), (1, 1), (0, 0), (5, 20), (2, 3), (50, 65535), (24, 7)])
    env = {"PATH": os.environ["PATH"], "HOME": case.dir, "TMPDIR": case.tmp, "LANG": "C.UTF-8", "TERM": rng.choice(["xterm-256color", "xterm", "dumb", "vt100", "nothing"]), "VLOG": case.log, "VDIR": case.dir}
    if rng.random() < .3:
        env["RUST_LOG"] = env["LITCHECK_TRACE"] = "trace"
    master, slave = pty.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
    with FORK:
        p = subprocess.Popen(args, cwd=case.root, env=env, stdin=slave, stdout=slave, stderr=slave, start_new_session=True)
    os.close(slave)
    out, end = b"", time.monotonic() + RUN_LIMIT
    while time.monotonic() < end:
        r, _, _ = select.select([master], [], [], .2)
        if r:
            try:
                b = os.read(master, 65536)
            except OSError:
                break
            if not b:
                break
            out += b
        elif p.poll() is not None:
            break
    os.close(master)
    try:
        rc = p.wait(10)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        case.fail("the run on a terminal does not end", out.decode("utf-8", "replace"))
    res = Result(rc, out.decode("utf-8", "surrogateescape"), "%d x %d, %s" % (rows, cols, env["TERM"]), 0, args)
    case.ensure(b"panicked at" not in out and rc == (1 if bad else 0), "exit status %d on a terminal" % rc, res)
    case.ensure(b"Total Discovered Tests: %d" % n in out, "the number of tests is not reported", res)
    case.ensure(len(case.events()) == n, "the tests executed: %r" % case.events(), res)
    case.evaluated((args, rows, cols, env["TERM"], n, bad))
    case.count("runs on a terminal")

ARGS = ["run", "show-suites", "show-tests", "help", "s", "s/a.t", "s/missing", "", ".", "..", "/", "-", "--", "-v", "-q", "-a", "-j", "-j0", "-j2", "-j=3", "--workers", "99999999999999999999", "--timeout", "0", "1", "-1", "--timeout=5", "--timeout=99999999999999999999", "--path", "s", "--path=", "--path=a:b", "--filter", "a", "(", "[", "--filter=a", "--filter=é", "--filter-out=.", "--filter-out", "-D", "-DX", "-DX=1", "-D=", "--param", "A=B", "é=é", "--target", "x86_64-unknown-linux-gnu", "x", "--no-execute", "--xfail-not", "--xfail", "a.t", "--xfail=;", "-h", "--help", "-V", "--version", "--show-all", "-vvv", "\udcff", "é", "😀", "lit", "not", "filecheck", "--color", "--time-tests", "--env", "A=1", "--order=x", "--max-failures=1"]

def command_lines(case):
    rng = case.rng
    helpers(case)
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n[format.shtest]\n")
    case.write("s/a.t", "RUN: rec a\n")
    case.write("s/é.t", "XFAIL: *\nRUN: rec b\nRUN: false\n")
    for _ in range(6):
        args = ["lit"] + (["run"] if rng.random() < .7 else []) + [rng.choice(ARGS) for _ in range(rng.randint(0, 5))] + (["s"] if rng.random() < .6 else [])
        env = rng.choice([{}, {}, {}, {"LIT_FILTER": rng.choice(["a", "(", "é", ""])}, {"LIT_FILTER_OUT": "a"}, {"LITCHECK_TRACE": rng.choice(["x=y=z", "", ",,,", "trace", "debug/a("])}, {"PATH": ""}, {"TMPDIR": "/nonexistent"}, {"LIT_OPTS": "-v"}, {"TERM": ""}])
        case.clear_events()
        res = case.run(args, env=env)
        case.ensure(res.rc in (0, 1, 2, 100), "exit status %d" % res.rc, res, env)
        case.ensure(res.rc == 0 or res.err.strip() or "Total Discovered" in res.out, "a failure without a message", res, env)
        case.ensure(len(set(case.events())) == len(case.events()), "a test ran twice", res, env)
        case.ensure(res.rc != 2 or not case.events(), "a test was executed by a command line which is refused", res, env)
        case.count("command lines with status %d" % res.rc)
        case.evaluated((args, sorted(env)))

STREAMS = [("tests", 900, 12000, tests), ("trees", 1500, 20000, configs), ("names", 250, 3000, names), ("bytenames", 40, 300, bytenames), ("outputs", 150, 2000, outputs), ("terminal", 150, 1500, terminal), ("command_lines", 200, 2500, command_lines)]
