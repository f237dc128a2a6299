from base import *
from model import *

RULE = ("One case is a generated tree of suites whose tests log every execution; it is run with several worker counts and output modes, and what is logged, "
        "the result lines, the lists, the counts, the total and the exit status are compared with what the tests do. Non-trivial: at least two tests, by tree, worker count and order of completion.")
ASSUMPTIONS = ["the schedules are those the OS gives, spread by random delays in the tests and by worker counts from 1 to 64"]

def world(case, ntests, sleep=0.0, nsuites=None):
    rng = case.rng
    helpers(case)
    suites = []
    for k in range(nsuites or rng.randint(1, 4)):
        # nested now and then, with equal names and equal relative paths too
        parent = rng.choice([""] + [s.dir for s in suites])
        d = os.path.join(parent, "s%d" % k)
        suites.append(Suite(rng.choice(["suite", "s%d" % k, "a b", "x::y"]), d, fmt=rng.choices(["shtest", "executable"], [5, 1])[0],
                            extra='working_dir = "."\n' if rng.random() < .2 else ""))
    for i in range(ntests):
        s = rng.choice(suites)
        while True:
            p = "/".join([name_word(rng) for _ in range(rng.randint(0, 2))] + [name_word(rng) + rng.choice(["", str(i)]) + ".t"])
            if rng.random() < .03:
                # a name longer than usual
                p = "/".join(["d" * rng.choice([1, 60, 200])] * rng.randint(1, 8) + [p])
            if p not in s.tests and not any(q.startswith(p + "/") or p.startswith(q + "/") for q in s.tests):
                break
        id = "T%d" % i
        s.tests[p] = shell_test(rng, id, sleep=sleep) if s.fmt == "shtest" else exec_test(rng, id)
        for o in suites:
            # the same name twice
            if o is not s and o.name == s.name and rng.random() < .4 and not any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in o.tests):
                o.tests[p] = shell_test(rng, id + "_", sleep=sleep) if o.fmt == "shtest" else exec_test(rng, id + "_")
                break
    for s in suites:
        s.write(case)
    return suites

def expect(suites):
    e = {}
    for s in suites:
        for p, t in s.tests.items():
            e.setdefault(s.full(p), []).append(t)
    return e

def observe(case, suites, args, select=lambda name: True, quiet=False, no_execute=False):
    case.clear_events()
    for f in os.listdir(case.dir):
        if f.startswith("flaky-"):
            os.unlink(os.path.join(case.dir, f))
    by = expect(suites)
    names = {n for n in by if select(n)}
    expected = [(n, t.status if not no_execute or t.status == "UNSUPPORTED" or t.malformed else "PASS") for n in names for t in by[n]]
    case.count("tests of the same name as another one", len(expected) - len(names))
    excluded = [n for n, ts in by.items() for _ in ts if n not in names]
    # nested suites are found along with the ones they are in
    res = case.lit(*args)
    if not expected:
        case.ensure(res.rc == 1 and not Report(res).lines, "a run which selects no test has to fail", res)
        check_events(case, [], res)
        case.count("runs without a selected test")
        return res, None
    rep = check_report(case, res, expected, excluded, quiet)
    log = check_events(case, [] if no_execute else [(t.id, t.events) for n, ts in by.items() for t in ts if n in names], res)
    case.count("runs")
    return res, [n for _, n in rep.lines]

def roots(case, suites):
    r = [s.dir for s in suites if not any(s is not o and s.dir.startswith(o.dir + "/") for o in suites)]
    case.rng.shuffle(r)
    return r

def tree(case):
    rng = case.rng
    n = rng.choice([1, 2, 3, 5, 8, 13, 20, 30])
    suites = world(case, n, sleep=rng.choice([0, 0, .02, .06]))
    paths = roots(case, suites)
    case.note("%d tests in %s" % (n, [(s.name, s.dir, s.fmt, len(s.tests)) for s in suites]))
    rng.shuffle(paths)
    orders = set()
    for workers in rng.sample([None, 1, 2, 3, 8, 16, 64], 3):
        args = ["-j%d" % workers] if workers else []
        quiet = False
        mode = rng.choice(["", "", "-q", "-v", "-a"])
        if mode:
            args.append(mode)
            quiet = mode == "-q"
        _, order = observe(case, suites, args + paths, quiet=quiet)
        orders.add(tuple(order or ()))
        case.evaluated((case.index, workers, mode, tuple(order or ())) if n > 1 else None)
    case.count("distinct completion orders", len(orders))

def filtered(case):
    rng = case.rng
    n = rng.randint(2, 16)
    suites = world(case, n)
    word = rng.choice(["a", "b", "suite", r"\d", "::a", r"\.t$", "^s0", "(1|2|3)", "zzz", "T"])
    out = rng.choice([None, "b", r"1\.t$", "^suite", "x"])
    args, sel = [], []
    if rng.random() < .8:
        args += ["--filter", word]
        sel.append(lambda name: re.search(word, name) is not None)
    if out:
        args += ["--filter-out", out]
        sel.append(lambda name: re.search(out, name) is None)
    case.note("filters %s" % args)
    _, order = observe(case, suites, args + ["-j%d" % rng.choice([1, 4])] + roots(case, suites), lambda name: all(f(name) for f in sel))
    case.evaluated((case.index, args))

def many(case):
    """More tests than a queue or a pool could hold by accident, all short"""
    rng = case.rng
    helpers(case)
    suites = [Suite("m%d" % k, "m%d" % k) for k in range(3)]
    kinds = rng.choice([["PASS", "PASS", "FAIL"], ["PASS", "FAIL", "UNSUPPORTED"], ["UNSUPPORTED", "XFAIL", "PASS"], ["PASS", "XFAIL", "XPASS", "UNRESOLVED", "FAIL", "UNSUPPORTED"]])
    for i in range(rng.randint(150, 400)):
        t = T("T%d" % i)
        t.status = rng.choice(kinds)
        t.content = {"UNSUPPORTED": "REQUIRES: nothing-like-it\n", "XFAIL": "XFAIL: *\n", "XPASS": "XFAIL: *\n"}.get(t.status, "") + \
            "RUN: printf 'T%d\\037x\\n' >> \"$VLOG\"%s\n" % (i, {"FAIL": "; exit 1", "XFAIL": "; exit 1", "UNRESOLVED": "; kill -9 $$"}.get(t.status, ""))
        t.events = ["T%d\x1fx" % i] if t.status != "UNSUPPORTED" else []
        rng.choice(suites).tests["d%d/%d.t" % (rng.randint(0, 3), i)] = t
    for s in suites:
        s.write(case)
    workers = rng.choice([None, 2, 7, 32])
    _, order = observe(case, suites, (["-j%d" % workers] if workers else []) + roots(case, suites))
    case.evaluated((case.index, workers, tuple(order)))

def overlap(case):
    """Tests that wait for each other: with enough workers they all run at the same time"""
    rng = case.rng
    helpers(case)
    n = rng.randint(2, 6)
    s = Suite("w", "w")
    for i in range(n):
        t = T("T%d" % i)
        t.status = "PASS"
        t.content = "RUN: rec T%d b; : > \"$VDIR/here%d\"; n=0; while [ $(ls \"$VDIR\" | grep -c ^here) -lt %d ] && [ $n -lt 1500 ]; do sleep 0.02; n=$((n+1)); done; test $n -lt 1500\nRUN: rec T%d e\n" % (i, i, n, i)
        t.events = ["T%d\x1fb" % i, "T%d\x1fe" % i]
        s.tests["%d.t" % i] = t
    s.write(case)
    observe(case, [s], ["-j%d" % rng.randint(n, n + 4), "w"])
    case.count("tests observed at the same time", n)
    case.evaluated(("overlap", n))

def aborted(case):
    """A setting that no test can be run with ends the run; all tests are still accounted for"""
    rng = case.rng
    helpers(case)
    n = rng.randint(1, 12)
    s = Suite("ab", "ab")
    for i in range(n):
        s.tests["%d.t" % i] = shell_test(rng, "T%d" % i, only=rng.choice(["PASS", "FAIL", "UNSUPPORTED"] if i else ["PASS", "FAIL"]), retries=False)
    s.write(case)
    os.mkdir(os.path.join(case.dir, "a:b"))
    res = case.lit("--path", os.path.join(case.dir, "a:b"), "-j%d" % rng.choice([1, 2, 8]), "ab")
    rep = Report(res)
    case.ensure(res.rc != 0, "a run that is aborted has to fail", res)
    names = [x for l, (k, xs) in rep.groups.items() for x in xs]
    case.ensure(all(k == len(xs) for k, xs in rep.groups.values()), "lists and their counts differ", res)
    if rep.total is not None:
        case.ensure(sorted(names) == sorted(s.full(p) for p in s.tests), "not every test is accounted for once", res)
        case.ensure(rep.total == n and sum(rep.counts.values()) == n, "the counts do not add up to %d" % n, res)
        case.ensure(rep.counts == {l: k for l, (k, _) in rep.groups.items()}, "counts and lists differ", res)
    check_events(case, [], res)
    case.count("aborted runs")
    case.evaluated((case.index, n) if n > 1 else None)

STREAMS = [("tree", 110, 900, tree), ("filtered", 60, 500, filtered), ("many", 4, 40, many), ("overlap", 6, 60, overlap), ("aborted", 20, 200, aborted)]
