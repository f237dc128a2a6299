from base import *

RULE = ("One case runs generated commands through `not` under its names, with and without --crash; the exit status is compared with the way the command ended, and the arguments, input, output, environment and "
        "working directory the command saw with those given. Non-trivial: by command, way of ending, flags and name.")
ASSUMPTIONS = ["a command named 'help' cannot be run by name, as `not help` shows the help"]

SIGNALS = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31]
ARGS = ["a", "", "two words", "--crash", "-v", "--help", "--", "-", "-j4", "*", "$HOME", "é", "\\", "'", "\"", "--x=y", "help", "not", "\n", "%s", "-V", "--version", "-h"]

def setup(case):
    for n in ("not", "NOT", "litcheck"):
        os.symlink(LITCHECK, os.path.join(case.bin, n))
    case.helper("end", 'printf "%s\\n" "$#" > "$VDIR/seen"; for a in "$@"; do printf "%s\\0" "$a" >> "$VDIR/args"; done; cat > "$VDIR/stdin"; pwd > "$VDIR/pwd"; env > "$VDIR/env"; echo to-out; echo to-err >&2\n'
                       'case "$HOW" in sig*) kill -"${HOW#sig}" $$; sleep 20;; *) exit "$HOW";; esac\n')

def way(rng, case):
    return rng.choice([[LITCHECK, "not"], [LITCHECK, "not"], [LITCHECK, "NOT"], [os.path.join(case.bin, "not")], [os.path.join(case.bin, "NOT")], [os.path.join(case.bin, "litcheck"), "not"]])

def command(case):
    rng = case.rng
    setup(case)
    for k in range(12):
        for f in ("seen", "args", "stdin", "pwd", "env"):
            try:
                os.unlink(os.path.join(case.dir, f))
            except FileNotFoundError:
                pass
        how = rng.choice(["0", "0", "1", "2", "126", "127", "128", "129", "137", "139", "255", str(rng.randint(0, 255)), str(rng.randint(1, 255)), "sig%d" % rng.choice(SIGNALS), "sig%d" % rng.choice(SIGNALS)])
        crash = rng.random() < .4
        crashed = how.startswith("sig")
        args = [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
        if args and args[0] == "--" :
            args[0] = "x"
        stdin = rng.choice(["", "some input\n", "é" * 5000, "no newline"])
        by = rng.choice(["path", "name"])
        argv = way(rng, case) + (["--crash"] if crash else []) + [os.path.join(case.bin, "end") if by == "path" else "end"] + args
        res = case.run(argv[1:], exe=argv[0], stdin=stdin, env={"HOW": how, "PATH": case.bin + ":" + os.environ["PATH"], "KEEP": "kept value"})
        want = 0 if (crashed if crash else (not crashed and how != "0")) else 1
        case.ensure(res.rc == want, "exit status %d instead of %d for a command that ended with %s" % (res.rc, want, how), res)
        def read(f):
            with open(os.path.join(case.dir, f), "rb") as h:
                return h.read().decode("utf-8", "surrogateescape")
        got = read("args").split("\0")[:-1] if args else []
        case.ensure(got == args and read("seen").strip() == str(len(args)), "the command got the arguments %r instead of %r" % (got, args), res)
        case.ensure(read("stdin") == stdin, "the command got another input", res)
        case.ensure(read("pwd").strip() == case.root, "the command ran in %r" % read("pwd"), res)
        env = read("env")
        for e in ("KEEP=kept value", "LLVM_DISABLE_CRASH_REPORT=1", "LLVM_DISABLE_SYMBOLIZATION=1"):
            case.ensure("\n" + e + "\n" in "\n" + env, "the environment of the command lacks %r" % e, env)
        case.ensure(res.out == "to-out\n" and res.err == "to-err\n", "the output is not that of the command", res)
        case.evaluated((how, crash, tuple(args), argv[0], argv[1], stdin[:20]))
        case.count("commands that crashed" if crashed else "commands that succeeded" if how == "0" else "commands that failed")

def every(case):
    """All exit codes and signals, exhaustively"""
    setup(case)
    for crash in (False, True):
        for how in [str(i) for i in range(256)] if case.index == 0 else ["sig%d" % i for i in SIGNALS]:
            crashed = how.startswith("sig")
            res = case.run(["not"] + (["--crash"] if crash else []) + ["sh", "-c", "kill -%s $$; sleep 9" % how[3:] if crashed else "exit " + how])
            want = 0 if (crashed if crash else (not crashed and how != "0")) else 1
            case.ensure(res.rc == want, "exit status %d instead of %d for %s%s" % (res.rc, want, "--crash " * crash, how), res)
            case.evaluated((how, crash))
            case.count("statuses")

def nested(case):
    """not not not ..."""
    rng = case.rng
    setup(case)
    n = rng.randint(1, 5)
    how = rng.choice(["true", "false"])
    argv = []
    for _ in range(n):
        argv += rng.choice([["not"], ["NOT"], ["litcheck", "not"]])
    res = case.run(argv[1:] + [how], exe=os.path.join(case.bin, argv[0]), env={"PATH": case.bin + ":" + os.environ["PATH"]})
    want = (0 if how == "true" else 1) ^ (n % 2)
    case.ensure(res.rc == want, "exit status %d instead of %d" % (res.rc, want), res)
    case.evaluated((tuple(argv), how))

def broken(case):
    """Commands that cannot be run"""
    rng = case.rng
    setup(case)
    case.write("notexec", "#!/bin/sh\nexit 1\n", 0o644)
    case.write("badinterp", "#!/no/such/interpreter\n", 0o755)
    os.mkdir(os.path.join(case.root, "dir"))
    os.symlink("loop", os.path.join(case.root, "loop"))
    for want, cmd in [((127,), ["no-such-command"]), ((127,), ["./missing"]), ((127,), ["/no/such/dir/cmd", "arg"]), ((126,), ["./notexec"]), ((126,), ["./dir"]), ((126, 127), ["./loop"]), ((126, 127), [""]), ((126, 127), ["./badinterp"]), ((126, 2), [])]:
        for crash in (False, True):
            argv = way(rng, case) + (["--crash"] if crash else []) + cmd
            res = case.run(argv[1:], exe=argv[0])
            case.ensure(res.rc in want, "exit status %d instead of %s" % (res.rc, want), res)
            case.ensure(res.err.strip() != "" or res.out.strip() != "", "nothing is said about it", res)
            case.evaluated((tuple(cmd), crash, tuple(argv[:2])))

STREAMS = [("command", 80, 1000, command), ("every", 2, 2, every), ("nested", 40, 200, nested), ("broken", 3, 12, broken)]
