from base import *
from model import *
import l01

RULE = ("One case is a generated set of suites, run under each name of the tool, with the options before, between and after the paths, with and without tracing; results, executions and exit status are compared with "
        "what the tests do. Usage errors must end with status 2 without executing anything. Non-trivial: runs of more than one test, by suites, name and order of arguments.")

def links(case):
    for n in ("lit", "litcheck"):
        os.symlink(LITCHECK, os.path.join(case.bin, n))

def invocations(case):
    rng = case.rng
    links(case)
    suites = l01.world(case, rng.choice([2, 4, 8]), nsuites=rng.choice([1, 2]))
    by = l01.expect(suites)
    case.note("%s" % [(s.name, s.dir, list(s.tests)) for s in suites])
    word = rng.choice([None, None, "a", r"\.t$", "1"])
    for k in range(4):
        case.clear_events()
        for f in os.listdir(case.dir):
            if f.startswith("flaky-"):
                os.unlink(os.path.join(case.dir, f))
        name = rng.choice([[LITCHECK, "lit"], [os.path.join(case.bin, "litcheck"), "lit"], [os.path.join(case.bin, "lit")]])
        quiet = rng.random() < .3
        opts = [["--path", case.bin], ["-j", str(rng.randint(1, 6))]] if rng.random() < .5 else [["--path=" + case.bin], ["--workers=%d" % rng.randint(1, 6)]]
        if quiet:
            opts.append([rng.choice(["-q", "--quiet"])])
        if rng.random() < .4:
            opts.append([rng.choice(["-v", "--verbose", "-a", "--show-all"])])
            if quiet:
                opts[-1] = ["-v"]
        if rng.random() < .4:
            opts.append(rng.choice([["--timeout", "60"], ["--timeout=0"], ["-DX=1"], ["--param", "A=b c"]]))
        env = {}
        if word:
            if rng.random() < .5:
                env["LIT_FILTER"] = word
            else:
                opts.append(["--filter", word])
        if rng.random() < .3:
            env["LITCHECK_TRACE"] = rng.choice(["trace", "debug", "info", "lit=trace", "off"])
        if rng.random() < .1:
            env["LITCHECK_TRACE_TIMING"] = rng.choice(["s", "ms", "us", "ns"])
        rng.shuffle(opts)
        parts = opts + [[p] for p in l01.roots(case, suites)]
        where = rng.choice(["before", "after", "mixed"])
        if where == "after":
            parts = parts[len(opts):] + opts
        elif where == "mixed":
            rng.shuffle(parts)
        res = case.run(name[1:] + ["run"] + [a for p in parts for a in p], exe=name[0], env=env)
        names = {n for n in by if word is None or re.search(word, n)}
        expected = [(n, t.status) for n in names for t in by[n]]
        excluded = [n for n, ts in by.items() for _ in ts if n not in names]
        if not expected:
            case.ensure(res.rc == 1 and not case.events(), "a run which selects no test has to fail", res)
            continue
        check_report(case, res, expected, excluded, quiet)
        check_events(case, [(t.id, t.events) for n, ts in by.items() for t in ts if n in names], res)
        case.evaluated((sorted(by), name[0], where, sorted(map(tuple, opts)), sorted(env)) if len(by) > 1 else None)
        case.count("invocations compared")

def usage(case):
    """Nothing is executed by a command line that has an error"""
    rng = case.rng
    links(case)
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n")
    case.write("s/a.t", "RUN: echo x >> \"$VLOG\"\n")
    bad = [(["lit", "run", "s", "--no-such-option"], 2), (["lit", "run", "--no-such-option", "s"], 2), (["lit", "run"], 2), (["lit", "run", "-jx", "s"], 2), (["lit", "run", "-j-1", "s"], 2), (["lit", "run", "s", "-j"], 2),
           (["lit", "run", "--timeout=x", "s"], 2), (["lit", "run", "--timeout=-1", "s"], 2), (["lit", "run", "--timeout=1.5", "s"], 2), (["lit", "run", "--path", "missing", "s"], 2), (["lit", "run", "--path"], 2),
           (["lit", "run", "--filter=(", "s"], 2), (["lit", "run", "--filter-out=[", "s"], 2), (["lit", "run", "--target", "not a target", "s"], 2), (["lit", "run", "s", "--quiet=1"], 2), (["lit", "run", "-D", "=x", "s"], 2),
           (["lit"], 2), ([], 2), (["lit", "nothing", "s"], 2), (["nothing", "s"], 2), (["lit", "show-tests"], 2), (["lit", "show-suites"], 2), (["lit", "show-tests", "--filter=(", "s"], 2), (["lit", "show-tests", "-j2", "s"], 2),
           (["lit", "run", "s", "missing"], 1), (["lit", "run", "missing", "s"], 1), (["lit", "run", "s/missing.t"], 1), (["lit", "run", "/"], 1), (["lit", "run", "s", "/tmp"], 1), (["lit", "run", ""], None),
           (["--help"], 0), (["lit", "--help"], 0), (["lit", "run", "--help", "s"], 0), (["lit", "run", "s", "-h"], 0), (["filecheck", "--help"], 0), (["not", "--help"], 0), (["help"], 0), (["lit", "help"], 0), (["lit", "help", "run"], 0)]
    for args, want in bad:
        exe = LITCHECK
        if args[:1] == ["lit"] and rng.random() < .5:
            exe, args = os.path.join(case.bin, "lit"), args[1:]
        res = case.run(args, exe=exe)
        case.ensure(res.rc == want if want is not None else res.rc != 0, "exit status %d instead of %s" % (res.rc, want), res)
        case.ensure(not case.events(), "a test was executed", res)
        case.ensure(res.err.strip() != "" or res.out.strip() != "", "nothing is said", res)
        case.evaluated((tuple(args), exe == LITCHECK))
        case.count("command lines rejected" if want else "requests for help")

def default_command(case):
    """--help says of `run` that it is the default if no command is given"""
    case.write("s/lit.suite.toml", "name = \"s\"\npatterns = [\"*.t\"]\n")
    case.write("s/a.t", "RUN: true\n")
    res = case.run(["lit", "s"])
    case.ensure(res.rc == 0, "`litcheck lit PATH` without a command does not run the tests, although --help says that run is the default", res)

STREAMS = [("invocations", 100, 1200, invocations), ("usage", 3, 12, usage)]
PROBES = {"default-command": default_command}
