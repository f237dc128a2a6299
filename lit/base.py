"""Shared machinery of the command line monitors: deterministic cases, scratch directories, runs of the
built binary, parsing of what it reports, evidence and verdicts."""
import collections, concurrent.futures, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

HOME = os.environ.get("VH_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
OUT = os.environ.get("VH_OUT", os.path.join(HOME, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
LITCHECK = os.environ.get("LITCHECK", os.path.join(HOME, ".build/repo/debug/litcheck"))
THREADS = int(os.environ.get("VH_THREADS", "8"))
BUDGET = float(os.environ.get("VH_BUDGET", "240" if TIER == "quick" else "800"))
RUN_LIMIT = 120  # seconds after which a run that should take less than one counts as hanging

STATUS = {"PASS": "Passed", "FAIL": "Failed", "XFAIL": "Failed As Expected", "XPASS": "Unexpectedly Passed",
          "UNSUPPORTED": "Unsupported", "UNRESOLVED": "Unresolved", "TIMEOUT": "Timed Out",
          "FLAKYPASS": "Passed With Retry", "SKIPPED": "Skipped", "EXCLUDED": "Excluded"}
FAILING = {"FAIL", "XPASS", "TIMEOUT", "UNRESOLVED"}
TAG_RE = re.compile(r"^(%s): (.*)$" % "|".join(STATUS))
GROUP_RE = re.compile(r"^\*{20} (.*) Tests \((\d+)\):$")
COUNT_RE = re.compile(r"^  (%s) *: +(\d+) \((\d+\.\d\d)%%\)$" % "|".join(sorted(STATUS.values(), key=len, reverse=True)))

# Held while a file that will be executed is open for writing, and while a process is being started: a child
# forked in between would keep the file open for a moment, and executing it would fail with "text file busy".
FORK = threading.Lock()

class Violation(Exception):
    pass
class Inconclusive(Exception):
    pass

def toml_str(s):
    return json.dumps(s, ensure_ascii=False)
def toml_list(xs):
    return "[" + ", ".join(toml_str(x) for x in xs) + "]"

class Result:
    def __init__(self, rc, out, err, wall, args):
        self.rc, self.out, self.err, self.wall, self.args = rc, out, err, wall, args
    def text(self):
        return "$ %s\nexit status: %s\n--- stdout\n%s\n--- stderr\n%s" % (" ".join(map(repr, self.args)), self.rc, self.out[-6000:], self.err[-3000:])

class Case:
    def __init__(self, ctx, stream, index):
        self.ctx, self.stream, self.index = ctx, stream, index
        self.rng = random.Random("%d/%s/%s/%d" % (SEED, ctx.prop, stream, index))
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="vl-"))
        self.root = os.path.join(self.dir, "r")       # what the tool sees
        self.tmp = os.path.join(self.dir, "tmp")
        self.bin = os.path.join(self.dir, "bin")
        for d in (self.root, self.tmp, self.bin):
            os.mkdir(d)
        self.log = os.path.join(self.dir, "log")
        self.notes, self.runs, self.pids = [], [], set()
        self.counts = collections.Counter()
        self.keys = []
        self.evals = 0

    # --- observations
    def count(self, what, n=1):
        if n:
            self.counts[what] += n
    def evaluated(self, key=None):
        """One comparison of an observed run with what it had to be; `key` if it was not trivial"""
        self.evals += 1
        if key is not None:
            self.keys.append(hashlib.sha1(str(key).encode("utf-8", "surrogateescape")).hexdigest()[:16])
    def note(self, text):
        self.notes.append(text)
    def fail(self, msg, *detail):
        raise Violation(msg + "".join("\n" + (d.text() if isinstance(d, Result) else str(d)) for d in detail))
    def ensure(self, cond, msg, *detail):
        if not cond:
            self.fail(msg, *detail)

    # --- files
    def write(self, path, content, mode=None):
        full = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with FORK, open(full, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("utf-8", "surrogateescape"))
        if mode is not None:
            os.chmod(full, mode)
        return full
    def helper(self, name, body):
        path = os.path.join(self.bin, name)
        with FORK, open(path, "w") as f:
            f.write("#!/bin/sh\n" + body)
        os.chmod(path, 0o755)
    def events(self):
        """The lines that the tests appended to the event log"""
        try:
            with open(self.log, "rb") as f:
                lines = f.read().decode("utf-8", "surrogateescape").split("\n")
                return lines[:-1] if not lines[-1] else lines
        except FileNotFoundError:
            return []
    def clear_events(self):
        if os.path.exists(self.log):
            os.unlink(self.log)

    # --- runs
    def run(self, args, cwd=None, env=None, stdin=None, limit=RUN_LIMIT, exe=None, watch=None):
        e = {"PATH": os.environ["PATH"], "HOME": self.dir, "TMPDIR": self.tmp, "LANG": "C.UTF-8", "NO_COLOR": "1", "TERM": "dumb",
             "VLOG": self.log, "VDIR": self.dir}
        e.update(env or {})
        argv = [exe or LITCHECK] + list(args)
        with tempfile.TemporaryFile(dir=self.dir) as out, tempfile.TemporaryFile(dir=self.dir) as err:
            fin = subprocess.DEVNULL
            if stdin is not None:
                fin = tempfile.TemporaryFile(dir=self.dir)
                fin.write(stdin if isinstance(stdin, bytes) else stdin.encode())
                fin.seek(0)
            start = time.monotonic()
            with FORK:
                p = subprocess.Popen(argv, cwd=cwd or self.root, env=e, stdin=fin, stdout=out, stderr=err, start_new_session=True)
            hung = False
            try:
                rc = p.wait(limit)
            except subprocess.TimeoutExpired:
                hung = True
            wall = time.monotonic() - start
            if watch and not hung:
                # before anything that is left is ended
                watch()
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            rc = p.wait()
            if stdin is not None:
                fin.close()
            texts = []
            for f in (out, err):
                f.seek(0)
                texts.append(f.read().decode("utf-8", "surrogateescape"))
        r = Result(rc, texts[0], texts[1], wall, argv)
        self.runs.append(r)
        if hung:
            self.fail("the run did not end within %d s" % limit, r)
        self.ensure("panicked at" not in r.err and rc not in (101, 134) and rc >= 0, "the tool crashed", r)
        return r
    def lit(self, *args, **kw):
        return self.run(["lit", "run", "--path", self.bin] + list(args), **kw)

    def close(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)

# ------------------------------------------------------------------ what a run reports
class Report:
    def __init__(self, res):
        self.lines = []           # (tag, name) in order
        self.groups = collections.OrderedDict()   # label -> (declared count, [names])
        self.total = None
        self.counts = collections.OrderedDict()
        self.shares = {}          # label -> percentage of the total
        group = None
        for line in res.out.split("\n"):
            m = TAG_RE.match(line)
            if m and group is None:
                self.lines.append((m.group(1), m.group(2)))
                continue
            m = GROUP_RE.match(line)
            if m:
                group = m.group(1)
                if group in self.groups:
                    raise Violation("the status %r is listed twice\n%s" % (group, res.text()))
                self.groups[group] = (int(m.group(2)), [])
                continue
            if line.startswith("Total Discovered Tests: "):
                group = None
                self.total = int(line.split(": ")[1])
                continue
            if self.total is not None:
                m = COUNT_RE.match(line)
                if m:
                    if m.group(1) in self.counts:
                        raise Violation("the count of %r is printed twice\n%s" % (m.group(1), res.text()))
                    self.counts[m.group(1)] = int(m.group(2))
                    self.shares[m.group(1)] = float(m.group(3))
                    continue
            if group is not None and line.startswith("  "):
                self.groups[group][1].append(line[2:])

def multiset_diff(a, b):
    a, b = collections.Counter(a), collections.Counter(b)
    return {"missing": sorted((a - b).elements())[:8], "unexpected": sorted((b - a).elements())[:8]}

def check_report(case, res, expected, excluded=(), quiet=False):
    """Compare everything `lit run` reports with the status that each test has to have"""
    rep = Report(res)
    # pairs of names and statuses, where two suites of the same name may have a test of the same name
    expected = list(expected.items()) if isinstance(expected, dict) else list(expected)
    shown = [(t, n) for n, t in expected if not quiet or t in FAILING]
    if sorted(rep.lines) != sorted(shown):
        case.fail("the reported results differ from those of the tests: %s" % json.dumps(multiset_diff(shown, rep.lines)), res)
    by = collections.defaultdict(list)
    for n, t in expected:
        by[t].append(n)
    if excluded:
        by["EXCLUDED"] = list(excluded)
    for t, names in by.items():
        label = STATUS[t]
        if quiet and t not in FAILING:
            case.ensure(label not in rep.groups, "%r is listed despite --quiet" % label, res)
        else:
            case.ensure(label in rep.groups, "the tests that are %r are not listed" % label, res)
            n, listed = rep.groups[label]
            case.ensure(n == len(names) and sorted(listed) == sorted(names),
                        "the list of %r is wrong (says %d, has to be %d): %s" % (label, n, len(names), multiset_diff(names, listed)), res)
        case.ensure(rep.counts.get(label) == len(names), "the count of %r is %s instead of %d" % (label, rep.counts.get(label), len(names)), res)
    extra = [l for l in list(rep.groups) + list(rep.counts) if l not in {STATUS[t] for t in by}]
    case.ensure(not extra, "reported statuses that no test has: %s" % extra, res)
    total = len(expected) + len(excluded)
    case.ensure(rep.total == total, "reported %s tests instead of %d" % (rep.total, total), res)
    for t, names in by.items():
        share = 100 * len(names) / total
        case.ensure(abs(rep.shares[STATUS[t]] - share) < 0.0051, "%d of %d tests are reported as %s%%" % (len(names), total, rep.shares[STATUS[t]]), res)
    want = 1 if any(t in FAILING for _, t in expected) else 0
    case.ensure(res.rc == want, "exit status %d instead of %d" % (res.rc, want), res)
    case.count("reported results", len(rep.lines))
    for t, names in by.items():
        case.count("tests " + t, len(names))
    return rep

# ------------------------------------------------------------------ running a property
class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.lock = threading.Lock()
        self.start = time.time()
        self.evals, self.keys, self.counts, self.samples = 0, set(), collections.Counter(), []
        self.violations, self.inconclusive, self.known = [], [], collections.Counter()
        self.known_keys = set()
        with open(os.path.join(HOME, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    self.known_keys.add(m.group(2))
        self.texts = {}

    def one(self, stream, fn, index, retry=0):
        case = Case(self, stream, index)
        try:
            fn(case)
            ok = None
        except Violation as v:
            ok = str(v)
        except Inconclusive as i:
            with self.lock:
                self.inconclusive.append("%s:%d %s" % (stream, index, i))
            ok = None
        finally:
            case.close()
        if ok is not None and retry:
            return self.one(stream, fn, index, retry - 1)
        with self.lock:
            self.evals += case.evals
            self.keys.update(case.keys)
            self.counts.update(case.counts)
            if case.notes and len(self.samples) < 6 and (index < 2 or ok):
                self.samples.append("%s:%d %s" % (stream, index, " | ".join(case.notes)[:700]))
            if ok is not None:
                self.violation(stream, index, ok, case.notes)
        return ok is None

    def violation(self, stream, index, detail, notes=()):
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, stream, index))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "case": "%s:%d" % (stream, index), "seed": SEED, "tier": TIER,
                       "replay": "VERIF_SEED=%d VERIF_TIER=%s ./check %s --case %s:%d" % (SEED, TIER, self.prop, stream, index),
                       "detail": detail.split("\n"), "notes": list(notes)}, f, indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + detail.replace("\n", "\n  ")[:4000].encode("utf-8", "replace").decode())
        sys.stdout.flush()

    def run(self, streams, only=None):
        """streams: (name, quick, thorough, function[, retries])"""
        jobs = []
        for s in streams:
            name, quick, thorough, fn = s[:4]
            retry = s[4] if len(s) > 4 else 0
            n = quick if TIER == "quick" else thorough
            jobs.append([(name, fn, i, retry) for i in range(n)])
        if only:
            name, index = only.split(":")
            fn = {s[0]: s[3] for s in streams}[name]
            return self.one(name, fn, int(index))
        # interleave the streams, so that a run that is cut short still covers all of them
        order, queues = [], [(len(j), j) for j in jobs if j]
        for n, j in queues:
            order += [((k + 0.5) / n, job) for k, job in enumerate(j)]
        order = [job for _, job in sorted(order, key=lambda x: x[0])]
        skipped = 0
        with concurrent.futures.ThreadPoolExecutor(THREADS) as pool:
            def go(job):
                if time.time() - self.start > BUDGET or len(self.violations) >= 5:
                    return False
                self.one(*job)
                return True
            for done in pool.map(go, order):
                skipped += not done
        if skipped:
            self.counts["cases not run (budget)"] += skipped

    def probe(self, key, fn):
        """A fixed case. Returns quietly if it holds; otherwise a known finding or a violation."""
        case = Case(self, "probe-" + key, 0)
        try:
            fn(case)
        except Violation as v:
            if key in self.known_keys:
                self.known[key] += 1
                print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, key, str(v).split("\n")[0]))
            else:
                self.violation("probe-" + key, 0, str(v))
        finally:
            case.close()
        self.evals += case.evals

    def finish(self, rule, assumptions=()):
        os.makedirs(OUT, exist_ok=True)
        if self.inconclusive:
            self.counts["inconclusive cases"] = len(self.inconclusive)
        with open(os.path.join(OUT, self.prop + ".json"), "w", encoding="utf-8", errors="backslashreplace") as f:
            json.dump({"property": self.prop, "tier": TIER, "seed": SEED, "level": "exploration",
                       "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.keys), "rule": rule,
                                    "observed": dict(sorted(self.counts.items())), "known_findings_seen": dict(self.known),
                                    "samples": self.samples or ["none"]},
                       "assumptions": list(assumptions), "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations)}, f, indent=1, ensure_ascii=False)
        print("%s: %d evaluations, %d distinct, %d inconclusive, %d violations, %.1f s" % (self.prop, self.evals, len(self.keys), len(self.inconclusive), len(self.violations), time.time() - self.start))
        return 1 if self.violations else 0
