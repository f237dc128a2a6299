#!/usr/bin/env python3
"""K05: runs the workloads of the harness natively and under AddressSanitizer, ThreadSanitizer and Miri,
and decides from what those tools (and the monitors of the K05 workloads) reported."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ["VH_BUILD"]
OUT = os.environ["VH_OUT"]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
START = time.time()

REPORTS = [
    ("miri", re.compile(r"error: Undefined Behavior: .*")),
    ("miri", re.compile(r"error: .*Data race detected.*")),
    ("asan", re.compile(r"ERROR: AddressSanitizer: (?!stack-overflow|out-of-memory|requested-size|allocation-size).*")),
    ("tsan", re.compile(r"WARNING: ThreadSanitizer: (?!signal-unsafe|lock-order|thread leak|destroy of a locked).*")),
    ("native", re.compile(r"unsafe precondition\(s\) violated.*")),
]
# the futex calls of parking_lot, which Miri rejects for the way in which they are declared
NOT_OURS = re.compile(r"c-variadic|variadic")

# (stream, cases for quick, cases for thorough, processes in thorough)
MIRI = [
    ("verifies", 1, 2, 6), ("verifies", 1, 2, 0), ("scripts", 3, 12, 4), ("exprs", 15, 60, 4), ("lists", 80, 300, 6), ("paths", 80, 300, 4),
    ("symbol-threads", 2, 6, 4), ("suites", 4, 12, 3), ("spans", 60, 300, 4), ("newlines", 60, 300, 2),
    ("symbols", 3, 12, 3), ("ids", 30, 120, 2), ("numbers", 6, 30, 2), ("formats", 40, 150, 2),
    ("vars", 20, 80, 2), ("inputs", 30, 150, 2), ("verify-threads", 8, 30, 4), ("list-threads", 8, 30, 4),
]
# (property, streams, quick cases, thorough cases)
ASAN = [
    ("K05", "", 4000, 60000), ("C11", "soup,malformed,mutants", 1500, 20000), ("K01", "", 1500, 20000),
    ("K03", "", 1500, 10000), ("K06", "", 4000, 60000), ("L05", "exprs,tables,soups,lists", 500, 5000),
    ("C01", "", 1500, 20000), ("C03", "", 1500, 20000),
]
TSAN = [
    ("K05", "symbol-threads,list-threads,verify-threads,vars,suites,lists", 1000, 10000),
    ("K04", "threads", 600, 6000), ("K02", "threads", 600, 6000), ("K06", "parallel", 200, 2000),
]

def env(**kw):
    e = dict(os.environ)
    e.update({k: str(v) for k, v in kw.items()})
    return e

def jobs():
    js = [dict(tool="native", prop="K05", streams="", n=0, seed=SEED, cpus=8, limit=300)]
    for p, s, q, t in ASAN:
        js.append(dict(tool="asan", prop=p, streams=s, n=t if THOROUGH else q, seed=SEED, cpus=4, limit=900 if THOROUGH else 200))
    for p, s, q, t in TSAN:
        js.append(dict(tool="tsan", prop=p, streams=s, n=t if THOROUGH else q, seed=SEED, cpus=4, limit=900 if THOROUGH else 200))
    for i, (s, q, t, procs) in enumerate(MIRI):
        for k in range(procs if THOROUGH else 1):
            js.append(dict(tool="miri", prop="K05", streams=s, n=t if THOROUGH else q, seed=SEED + 1000 * (i + 1) + k, cpus=1, limit=2400 if THOROUGH else 330, k=k))
    return js

def run(j, idx):
    d = f"{BUILD}/k05/{idx}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    log = f"{d}/log"
    e = env(VH_OUT=d, VERIF_SEED=j["seed"], VH_HOME=HERE, VERIF_TIER=TIER, VH_CHILD=f"{d}/inflight", VH_BUDGET=j["limit"] - 30)
    if j["streams"]:
        e["VH_SAN_ONLY"] = j["streams"]
    cwd = f"{HERE}/harness"
    if j["tool"] == "native":
        e.pop("VH_CHILD")
        cmd = [f"{BUILD}/target/debug/vh", j["prop"]]
    elif j["tool"] == "miri":
        e.update(VH_SAN_N=str(j["n"]), VH_THREADS="1", CARGO_TARGET_DIR=f"{BUILD}/miri", RUSTUP_TOOLCHAIN="nightly",
                 CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
                 MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-preemption-rate=0 -Zmiri-seed={j['seed']}")
        cmd = ["cargo", "miri", "run", "--offline", "--locked", "-q", "--", j["prop"]]
    else:
        e.update(VH_SAN_N=str(j["n"]), VH_THREADS=str(j["cpus"]))
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0"
        e["TSAN_OPTIONS"] = "exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=4:suppressions=" + HERE + "/tools/tsan.supp"
        cmd = [f"{BUILD}/{j['tool']}/x86_64-unknown-linux-gnu/debug/vh", j["prop"]]
    t = time.time()
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(j["limit"])
            timeout = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            rc, timeout = p.wait(), True
    text = open(log, errors="replace").read()
    r = dict(j, rc=rc, timeout=timeout, wall=round(time.time() - t, 1), log=log, reports=[], observed={}, evaluations=0, nontrivial=0, samples=[])
    for tool, rx in REPORTS:
        for m in rx.finditer(text):
            near = text[m.start():m.start() + 400]
            if tool == "miri" and NOT_OURS.search(near):
                r.setdefault("limits", []).append(m.group(0))
                continue
            r["reports"].append((m.group(0), text[max(0, m.start() - 200):m.start() + 6000]))
            break
    m = re.search(r"error: unsupported operation.*|error: the evaluated program deadlocked.*", text)
    if m and j["tool"] == "miri":
        r.setdefault("limits", []).append(m.group(0))
    if j["prop"] == "K05" and not r["reports"]:
        m = re.search(r"VIOLATION property=K05.*\n.*", text)
        if m:
            r["reports"].append((m.group(0).splitlines()[-1].strip(), text[m.start():m.start() + 6000]))
    if not r["reports"] and not timeout and rc < 0 and j["tool"] in ("asan", "tsan") and rc != -9 and "has overflowed its stack" not in text and "stack-overflow" not in text:
        r["reports"].append((f"the process is ended by signal {-rc}", text[-6000:]))
    try:
        c = json.load(open(f"{d}/{j['prop']}.json"))["coverage"]
        r.update(observed=c["observed"], evaluations=c["evaluations"], nontrivial=c["distinct_nontrivial"], samples=c["samples"][:1])
    except (OSError, ValueError, KeyError):
        pass
    return r

def main():
    js = jobs()
    if len(sys.argv) > 2 and sys.argv[1] == "--case":
        keys = [f"{j['tool']}.{j['prop']}.{j['streams'] or 'all'}.{j.get('k', 0)}" for j in js]
        js = [j for j, k in zip(js, keys) if k == sys.argv[2]]
        if not js:
            print("\n".join(keys))
            sys.exit(2)
    res = []
    # the compiled programs one after another, with the interpreter's processes beside them
    wide = [(i, j) for i, j in enumerate(js) if j["tool"] != "miri"]
    thin = [(i, j) for i, j in enumerate(js) if j["tool"] == "miri"]
    with cf.ThreadPoolExecutor(1) as a, cf.ThreadPoolExecutor(6) as b:
        fs = [b.submit(run, j, i) for i, j in thin] + [a.submit(run, j, i) for i, j in wide]
        for f in fs:
            res.append(f.result())
    bad = [(r, rep) for r in res for rep in r["reports"]]
    os.makedirs(f"{OUT}/replays", exist_ok=True)
    for n, (r, (head, text)) in enumerate(bad[:5]):
        path = f"{OUT}/replays/K05-{n}.txt"
        case = f"{r['tool']}.{r['prop']}.{r['streams'] or 'all'}.{r.get('k', 0)}"
        with open(path, "w") as f:
            f.write(f"property: K05\ntool: {r['tool']}\nworkload: {r['prop']} {r['streams']}\nreproduce: VERIF_SEED={SEED} VERIF_TIER={TIER} ./check K05 --case {case}\n\n{text}\n")
        print(f"VIOLATION property=K05 replay={path}\n  {r['tool']}, workload {r['prop']} {r['streams']}: {head[:600]}")
    tools, missing = {}, []
    for r in res:
        t = tools.setdefault(r["tool"], dict(executions=0, processes=0, observed={}))
        t["processes"] += 1
        t["executions"] += r["evaluations"]
        for k, v in r["observed"].items():
            t["observed"][k] = t["observed"].get(k, 0) + v
        if r["evaluations"] == 0:
            missing.append(f"{r['tool']} {r['prop']} {r['streams']}: rc {r['rc']}, timeout {r['timeout']} {r.get('limits', '')}")
    ev = sum(r["evaluations"] for r in res)
    doc = dict(property="K05", tier=TIER, seed=SEED, level="exploration", coverage=dict(
        evaluations=ev, distinct_nontrivial=sum(r["nontrivial"] for r in res),
        rule="One execution is one generated case of a workload, run natively with the precondition checks of the standard library, or under AddressSanitizer, ThreadSanitizer (both with the standard library rebuilt) or Miri (tree borrows, no overflow checks as in a release build). The reports of those tools decide, and for the K05 workloads also their monitors: texts which come out of unsafe code are UTF-8, enumerations and numbers hold the value they were made from. Non-trivial: distinct workload descriptions within each process, summed.",
        observed=tools, without_result=missing, samples=[s for r in res for s in r["samples"]][:8],
        processes=[dict(tool=r["tool"], workload=f"{r['prop']} {r['streams']}".strip(), cases=r["evaluations"], wall_s=r["wall"], limits=r.get("limits", [])) for r in res]),
        assumptions=["schedules are those the machine and Miri's scheduler produced", "the dependencies' unsafe code is trusted beyond what the tools report while it runs"],
        wall_s=round(time.time() - START, 2), violations=len(bad))
    if len(sys.argv) <= 1:
        with open(f"{OUT}/K05.json", "w") as f:
            json.dump(doc, f, indent=1)
    for m in missing:
        print("  no result:", m)
    print(f"K05 {TIER}: {ev} executions in {len(res)} processes, {len(bad)} reports, {doc['wall_s']} s")
    if bad:
        sys.exit(1)
    done = {t: sum(r["evaluations"] for r in res if r["tool"] == t) for t in ("native", "asan", "tsan", "miri")}
    if any(r["evaluations"] == 0 and r["tool"] != "miri" for r in res) or (len(sys.argv) <= 1 and not all(done.values())):
        sys.exit(2)
    sys.exit(0)

main()
