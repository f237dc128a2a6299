from base import *
import shlex

RULE = ("One case is a generated check file and input whose verdict is known by construction, verified through the command line in many equivalent ways (input from a file, standard input or '-'; options on the "
        "command line, in FILECHECK_OPTS or split; every verbosity and dump option; every name of the tool); the exit status of each is compared with the verdict. Non-trivial: by check file, input, options and way.")
ASSUMPTIONS = ["the rules of matching themselves are decided by C01-C14; here only simple check files are generated", "exit status 1 is a failed verification or unusable file, 2 a usage error"]

def links(case):
    for n in ("filecheck", "FileCheck", "check", "litcheck"):
        os.symlink(LITCHECK, os.path.join(case.bin, n))

def way(rng, case):
    """A command line for filecheck"""
    k = rng.random()
    if k < .5:
        return [LITCHECK, rng.choice(["filecheck", "filecheck", "FileCheck", "check"])]
    if k < .6:
        return [os.path.join(case.bin, "litcheck"), "filecheck"]
    return [os.path.join(case.bin, rng.choice(["filecheck", "FileCheck", "check"]))]

NOISE = [["-v"], ["-vv"], ["--verbose"], ["-v", "-v"], ["-vvvv"], ["--dump-input=never"], ["--dump-input", "always"], ["--dump-input=fail"], ["--dump-input-filter=all"], ["--dump-input-filter", "error"],
         ["--dump-input-filter=annotation-full"], ["--dump-input-filter=annotation"], ["--color=never"], ["--color", "always"], ["--color=auto"]]

class Scenario:
    """A check file, an input, the options that give it its meaning, and whether it passes"""
    def __init__(self, rng):
        self.rng = rng
        self.opts = []
        n = rng.choice([1, 2, 3, 5, 8, 12])
        self.lines = ["w%d %s" % (i, "".join(rng.choice("abcxyz") for _ in range(rng.randint(0, 5)))) for i in range(n)]
        self.sep = "\n"
        p = "CHECK"
        custom = rng.random()
        if custom < .3:
            p = rng.choice(["FOO", "A-B", "X_1", "CHECK2", "Bar"])
            form = rng.choice([["--check-prefix=" + p], ["--check-prefixes", p], ["--check-prefixes=%s" % p], ["--check-prefix", p]])
            self.opts.append(form)
        self.p = p
        self.check, self.ok = [], True
        # positive checks for increasing lines
        at = -1
        fold = rng.random() < .2
        for i in range(n):
            if rng.random() < .6:
                word = "w%d" % i
                if rng.random() < .2:
                    word = "{{w%d}}" % i
                elif rng.random() < .15:
                    word = "w%d {{[a-z]*}}{{$}}" % i
                elif fold and rng.random() < .5:
                    word = "W%d" % i
                    self.fold = True
                # otherwise w1 would be found in w10 and so on: word boundaries are not needed, as lines are searched in order
                kind = "-NEXT" if at >= 0 and i == at + 1 and rng.random() < .5 else ""
                self.check.append("%s%s: %s" % (p, kind, word))
                at = i
        if not self.check:
            self.check.append("%s: w0" % p)
            at = 0
        if any(": W" in c for c in self.check):
            self.opts.append(["--ignore-case"])
        if rng.random() < .2:
            self.check.append("%s-NOT: absent" % p)
        # now break it, perhaps
        breaks = rng.choice(["none", "none", "none", "missing", "order", "next", "not", "implicit", "same", "count"])
        if breaks == "missing":
            self.check.insert(rng.randint(0, len(self.check)), "%s: absent" % p)
            self.ok = False
        elif breaks == "order":
            self.check += ["%s: w%d {{.*}}" % (p, n - 1), "%s: w0 " % p]
            self.ok = False
        elif breaks == "next" and n >= 3:
            self.check = ["%s: w0 " % p, "%s-NEXT: w2 " % p]
            self.ok, self.opts = False, [o for o in self.opts if o != ["--ignore-case"]]
        elif breaks == "not":
            self.check.append("%s-NOT: tail-%d" % (p, n))
            self.lines.append("tail-%d" % n)
            self.ok = False
        elif breaks == "implicit":
            if rng.random() < .5:
                self.opts.append(["--implicit-check-not=forbidden"])
            else:
                self.opts += [["--implicit-check-not", "nothere"], ["--implicit-check-not=forbidden"]]
            # it has to be between the matched text, not in it
            self.lines.insert(rng.randint(0, len(self.lines)), "forbidden")
            self.check = [c for c in self.check if "-NEXT" not in c]
            self.ok = False
        elif breaks == "same":
            self.check += ["%s: w%d " % (p, n - 1)] if at < n - 1 else []
            self.check.append("%s-SAME: nomore" % p)
            self.ok = False
        elif breaks == "count":
            k = rng.choice([n - 1, n, n + 1])
            if k > 0:
                self.check = ["%s-COUNT-%d: w" % (p, k)]
                self.ok, self.opts = k <= n, [o for o in self.opts if o != ["--ignore-case"]]
        self.kind = breaks
        if rng.random() < .2:
            self.opts.append(["-DVAR=w0"] if rng.random() < .5 else ["--define", "VAR=w0"])
            if self.check[0].startswith("%s: w0" % p) and rng.random() < .8:
                self.check[0] = self.check[0].replace("w0", "[[VAR]]", 1)
            elif rng.random() < .5:
                self.opts.pop()
                self.check.insert(0, "%s: [[VAR]]" % p)
                self.ok = False
        if rng.random() < .15:
            self.opts.append(["--strict-whitespace"])
        if rng.random() < .15:
            self.opts.append(["--enable-var-scope"])
        if rng.random() < .2:
            self.check.append("# COM: %s: absent" % p)
        elif rng.random() < .2:
            self.opts.append(["--comment-prefix=NOTE"])
            self.check.append("; NOTE: %s: absent" % p)
        if rng.random() < .2:
            self.opts.append(["--check-prefixes=" + rng.choice(["UNUSED", "U1,U2"])] if custom < .3 else ["--check-prefixes=CHECK,UNUSED"])
            if rng.random() < .6:
                self.opts.append(["--allow-unused-prefixes"])
            else:
                self.ok = False
        self.check_text = "\n".join(rng.choice(["", "// ", "# ", "text\n"]) + c for c in self.check) + rng.choice(["\n", ""])
        self.input_text = "\n".join(self.lines) + rng.choice(["\n", ""])
        if rng.random() < .1:
            # a long input in which nothing of this is
            filler = "filler line of some length\n" * rng.choice([1000, 8000])
            if not any(x in self.check_text for x in ("-NEXT", "-COUNT", "-SAME", "-NOT", "{{.*}}")):
                self.input_text = filler + self.input_text
        elif rng.random() < .1:
            # extremely long lines
            far = [rng.choice(["~", "~ ", "\t", "é", "日"]) * rng.choice([16384, 70000]) if rng.random() < .5 else "" for _ in self.lines]
            self.input_text = "\n".join(f + l for f, l in zip(far, self.lines)) + rng.choice(["\n", ""])
        elif rng.random() < .1:
            self.check_text = "".join(rng.choice(["~", "~ ", "\t", "é"]) * 70000 + " " + l if rng.random() < .5 else l for l in self.check_text.splitlines(True))

def verify(case, sc, opts, want, noise=()):
    """One run, in some way"""
    rng = case.rng
    opts = [list(o) for o in opts] + [list(o) for o in noise]
    rng.shuffle(opts)
    env_opts = []
    how = rng.choice(["cli", "env", "split", "split", "emptyenv"])
    if how == "env":
        env_opts, opts = opts, []
    elif how == "split":
        k = rng.randint(0, len(opts))
        env_opts, opts = opts[:k], opts[k:]
    env = {}
    source = rng.choice(["file", "file=", "stdin", "dash"])
    # what the command line says comes after what the environment says, and counts
    over = []
    if any("VAR=w0" in o[-1] for o in opts) and rng.random() < .5:
        over.append(rng.choice([["-DVAR=absent"], ["-D", "VAR=x y"], ["--define=VAR=w"]]))
    if source != "stdin" and rng.random() < .15:
        over.append(["--input-file=" + rng.choice(["none.txt", "check.txt", "/dev/null", "-"])])
    for o in over:
        env_opts.insert(0, o)
        case.count("options overridden")
    if env_opts or how == "emptyenv":
        words = [w for o in env_opts for w in o]
        env["FILECHECK_OPTS"] = rng.choice([" ", "  "]).join(rng.choice([shlex.quote, shlex.quote, lambda w: "'%s'" % w])(w) for w in words)
    inp = case.write("input.txt", sc.input_text)
    case.write("check.txt", sc.check_text)
    cf = rng.choice(["check.txt", os.path.join(case.root, "check.txt"), "./check.txt"])
    args = {"file": ["--input-file", "input.txt"], "file=": ["--input-file=" + inp], "stdin": [], "dash": ["--input-file=-"]}[source]
    parts = [[cf], args] + opts
    rng.shuffle(parts)
    argv = way(rng, case) + [w for p in parts for w in p]
    res = case.run(argv[1:], exe=argv[0], env=env, stdin=sc.input_text if source in ("stdin", "dash") else None)
    case.ensure(res.rc == want, "exit status %d instead of %d" % (res.rc, want), res, "FILECHECK_OPTS=%r" % env.get("FILECHECK_OPTS"), "check file:\n" + sc.check_text, "input:\n" + sc.input_text[-1000:])
    if want != 0:
        case.ensure(res.err.strip() != "", "nothing is said about the failure", res)
    case.count("runs " + ("passed" if want == 0 else "failed"))
    case.evaluated((sc.check_text, sc.input_text, how, source, sorted(map(tuple, opts + env_opts))))

def ways(case):
    rng = case.rng
    links(case)
    sc = Scenario(rng)
    case.note("%s %s %s: %r / %r" % (sc.kind, sc.ok, sc.opts, sc.check_text, sc.input_text[-200:]))
    want = 0 if sc.ok else 1
    for k in range(6):
        noise = []
        if k:
            # each kind of option at most once on one side
            kinds = {}
            for n in rng.sample(NOISE, rng.randint(0, 3)):
                kinds.setdefault(n[0].split("=")[0].rstrip("v") or "v", n)
            noise = list(kinds.values())
        verify(case, sc, sc.opts, want, noise)
    case.count("scenarios")

def repeated(case):
    """An option which is given on both sides means what it means once"""
    rng = case.rng
    links(case)
    sc = Scenario(rng)
    if not sc.opts:
        sc.opts.append(["-v"])
    dup = [o for o in sc.opts if not o[0].startswith("-D") and "define" not in o[0]]
    if not dup:
        return
    verify(case, sc, sc.opts + [rng.choice(dup)], 0 if sc.ok else 1)

def empty(case):
    rng = case.rng
    links(case)
    sc = Scenario(rng)
    sc.input_text = ""
    sc.opts = []
    positive = rng.random() < .5
    sc.check_text = "CHECK: x\n" if positive else "CHECK-NOT: x\n"
    verify(case, sc, [], 1)
    verify(case, sc, [["--allow-empty"]], 1 if positive else 0)

def unusable(case):
    """Files that cannot be read, check files that mean nothing, options that are invalid"""
    rng = case.rng
    links(case)
    good = case.write("good.txt", "CHECK: a\n")
    case.write("in.txt", "a\nb\n")
    case.write("latin.txt", b"a\xff\xfe\n")
    case.write("latincheck.txt", b"CHECK: a\xff\n")
    os.mkdir(os.path.join(case.root, "dir"))
    os.symlink("nowhere", os.path.join(case.root, "dangling"))
    os.symlink("good.txt", os.path.join(case.root, "link.txt"))
    bad = {"none.txt": "nothing here\n", "empty.txt": "", "regex.txt": "CHECK: {{(}}\n", "open.txt": "CHECK: {{abc\n", "var.txt": "CHECK: [[X\n", "undef.txt": "CHECK: [[UNDEF]]\n", "firstnext.txt": "CHECK-NEXT: a\n",
           "firstsame.txt": "CHECK-SAME: a\n", "firstempty.txt": "CHECK-EMPTY:\n", "nopattern.txt": "CHECK:\n", "count0.txt": "CHECK-COUNT-0: a\n", "countx.txt": "CHECK-COUNT-: a\n", "notcount.txt": "CHECK-NOT-COUNT-2: a\n",
           "num.txt": "CHECK: [[#%q,X:]]\n", "num2.txt": "CHECK: [[#1+]]\n", "labelvar.txt": "CHECK: a[[X:b]]\nCHECK-LABEL: [[X]]\n"}
    for k, v in bad.items():
        case.write(k, v)
    i = ["--input-file=in.txt"]
    runs = [(0, ["good.txt"] + i), (0, ["link.txt"] + i), (0, ["good.txt", "--input-file", "dir/../in.txt"]),
            (1, ["missing.txt"] + i), (1, ["dir"] + i), (1, ["dangling"] + i), (1, ["good.txt", "--input-file=missing"]), (1, ["good.txt", "--input-file=dir"]), (1, ["good.txt", "--input-file=dangling"]),
            (1, ["good.txt", "--input-file=latin.txt"]), (1, ["latincheck.txt"] + i),
            (2, i), (2, ["good.txt", "extra.txt"] + i), (2, ["good.txt", "--no-such-option"] + i), (2, ["good.txt", "--check-prefix="] + i), (2, ["good.txt", "--check-prefix=1A"] + i), (2, ["good.txt", "--check-prefix=a b"] + i),
            (2, ["good.txt", "--dump-input=maybe"] + i), (2, ["good.txt", "--color=blue"] + i), (2, ["good.txt", "--dump-input-filter=x"] + i), (2, ["good.txt", "--allow-empty=x"] + i), (2, ["good.txt", "--input-file"]),
            (1, ["good.txt", "--check-prefix=RUN"] + i), (1, ["good.txt", "--comment-prefix=CHECK"] + i), (1, ["good.txt", "--check-prefixes=A,B", "--comment-prefixes=B"] + i),
            (0, ["good.txt", "--dump-input=help"] + i), (0, ["missing.txt", "--dump-input=help"])]
    runs += [(1, [k] + i) for k in bad]
    # what is wrong with a variable is either a usage error or a failure
    runs += [((1, 2), ["good.txt", v] + i) for v in ("-D", "-DX", "-D=x", "-D1=x", "-D#X=y", "-D#X=1+", "-DX Y=1")]
    for want, args in rng.sample(runs, 14):
        env = {}
        if len(args) > 1 and want == 2 and args[1].startswith("--") and args[1] not in i + ["--input-file"] and rng.random() < .5:
            env["FILECHECK_OPTS"] = shlex.quote(args[1])
            args = args[:1] + args[2:]
        noise = rng.choice([[], [], ["-v"], ["--dump-input=never"], ["-vv"]]) if "--dump-input=maybe" not in args and "--dump-input=help" not in args else []
        argv = way(rng, case) + noise + args
        res = case.run(argv[1:], exe=argv[0], env=env)
        case.ensure(res.rc in (want if isinstance(want, tuple) else (want,)), "exit status %d instead of %s" % (res.rc, want), res, env)
        case.evaluated((args, env))
        case.count("unusable invocations")
    for opts in ("'", "\"--allow-empty", "--allow-empty \\"):
        res = case.run(["filecheck", "good.txt"] + i, env={"FILECHECK_OPTS": opts})
        case.ensure(res.rc == 2, "FILECHECK_OPTS which cannot be read has to be rejected, exit status %d" % res.rc, res, opts)
        case.evaluated(("FILECHECK_OPTS", opts))

def pipes(case):
    """Standard input that arrives slowly or in pieces is the same input"""
    rng = case.rng
    sc = Scenario(rng)
    case.write("check.txt", sc.check_text)
    words = [w for o in sc.opts for w in o]
    r, w = os.pipe()
    data = sc.input_text.encode()
    cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.randint(0, 5)))
    def feed():
        try:
            last = 0
            for c in cuts + [len(data)]:
                os.write(w, data[last:c]) if c - last < 60000 else [os.write(w, data[x:min(x + 60000, c)]) for x in range(last, c, 60000)]
                last = c
                time.sleep(rng.random() * .02)
        except OSError:
            pass
        finally:
            os.close(w)
    th = threading.Thread(target=feed)
    os.set_inheritable(w, False)
    with FORK:
        p = subprocess.Popen([LITCHECK, "filecheck", "check.txt"] + words, cwd=case.root, stdin=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.close(r)
    th.start()
    out = p.communicate(timeout=RUN_LIMIT)[0]
    th.join()
    case.ensure(p.returncode == (0 if sc.ok else 1), "exit status %d" % p.returncode, out.decode(errors="replace")[-3000:], sc.check_text, sc.input_text[-500:])
    case.evaluated((sc.check_text, sc.input_text, cuts))
    case.count("piped runs")

def sizes(case):
    """More options, prefixes, variables and checks than a fixed limit would allow, with a verdict known by construction"""
    rng = case.rng
    links(case)
    npre, nvar, nnot, ncom, nlines = rng.choice([1, 7, 20, 70, 300]), rng.choice([0, 7, 20, 70, 300]), rng.choice([0, 7, 20, 70]), rng.choice([0, 7, 20]), rng.choice([3, 300, 3000, 20000])
    opts = []
    pre = ["P%d%s" % (i, rng.choice(["", "", "-X", "q" * 100])) for i in range(npre)]
    while pre:
        k = rng.choice([1, 3, len(pre)])
        opts.append(["--check-prefix" + rng.choice(["=", "es="]) + ",".join(pre[:k])])
        pre = pre[k:]
    pre = [p for o in opts for p in o[0].split("=")[1].split(",")]
    com = ["C%d" % i for i in range(ncom)]
    if com:
        opts.append(["--comment-prefixes=" + ",".join(com)])
    var = {"V%d" % i: "val%d." % i + rng.choice(["", "", "z" * 500]) for i in range(nvar)}
    opts += [["-D%s=%s" % kv] for kv in var.items()]
    opts += [["--implicit-check-not=never%d." % i] for i in range(nnot)]
    lines = ["line%d. " % i + rng.choice(["", "", "pad " * 40]) for i in range(nlines)]
    check, used = [], []
    picks = sorted(rng.sample(range(nlines), min(nlines, max(npre, rng.choice([1, 30, 400])))))
    if npre > len(picks):
        picks = sorted(picks + [rng.randrange(nlines) for _ in range(npre - len(picks))])
    # every prefix is used, in some order
    names = pre + [rng.choice(pre) for _ in range(len(picks) - npre)]
    rng.shuffle(names)
    last = -1
    for p, i in zip(names, picks):
        if i == last:
            # more checks than lines: whatever there is on the line
            check.append("%s-SAME:{{.?}}" % p)
            continue
        last = i
        v = rng.choice(sorted(var)) if var and rng.random() < .5 else None
        if v:
            lines[i] = "line%d. " % i + var[v] + "!"
        check.append("%s: line%d.%s" % (p, i, " [[%s]]!" % v if v else ""))
        if com and rng.random() < .1:
            check.append("%s: %s: absent" % (rng.choice(com), p))
    ok = True
    spoil = rng.choice([None, None, "not", "prefix", "line", "var", "count", "clash"])
    if spoil == "not" and nnot:
        ok = False
        # before the first match, or after the last: nowhere in what is matched
        lines.insert(rng.choice([0, len(lines)]), "never%d." % (nnot - 1))
    elif spoil == "prefix":
        opts.append(["--check-prefix=UNUSED"])
        ok = False
    elif spoil == "line":
        check.append("%s: line%d.z" % (pre[-1], nlines - 1))
        ok = False
    elif spoil == "var" and nvar:
        check.append("%s: [[V%d]]?" % (pre[-1], nvar - 1))
        ok = False
    elif spoil == "clash":
        # a name is for checks or for comments
        opts.append(["--comment-prefix=" + rng.choice([pre[-1], rng.choice(pre)])])
        ok = False
    elif spoil == "count":
        k = rng.choice([2, 300, 2000])
        m = rng.choice([k, k - 1, k % 256])
        check.append("%s-COUNT-%d: again" % (pre[0], k))
        lines += ["again"] * m
        ok = m >= k
    sc = Scenario(rng)
    sc.check_text, sc.input_text, sc.opts, sc.ok, sc.kind = "\n".join(check) + "\n", "\n".join(lines) + "\n", opts, ok, "sizes"
    what = "%d prefixes, %d variables, %d implicit, %d comments, %d lines, %d checks: %s %s" % (npre, nvar, nnot, ncom, nlines, len(check), spoil, ok)
    case.note(what)
    verify_in_order(case, sc, 0 if ok else 1)
    case.evaluated(what)

def verify_in_order(case, sc, want):
    rng = case.rng
    case.write("input.txt", sc.input_text)
    case.write("check.txt", sc.check_text)
    words = [w for o in sc.opts for w in o]
    k = rng.choice([0, 0, len(words) // 2, len(words)])
    env = {"FILECHECK_OPTS": " ".join(shlex.quote(w) for w in words[:k])} if k else {}
    argv = way(rng, case) + ["check.txt"] + words[k:]
    how = rng.choice(["file", "stdin"])
    if how == "file":
        argv += ["--input-file", "input.txt"]
    res = case.run(argv[1:], exe=argv[0], env=env, stdin=sc.input_text if how == "stdin" else None, limit=120)
    case.ensure(res.rc == want, "exit status %d instead of %d" % (res.rc, want), res, "%d options in FILECHECK_OPTS" % k, "check file:\n" + sc.check_text[:3000], "end of the input:\n" + sc.input_text[-1000:])
    case.count("large runs " + ("passed" if want == 0 else "failed"))

STREAMS = [("sizes", 60, 600, sizes), ("ways", 260, 3500, ways), ("repeated", 100, 800, repeated), ("empty", 40, 200, empty), ("unusable", 40, 400, unusable), ("pipes", 60, 600, pipes)]
