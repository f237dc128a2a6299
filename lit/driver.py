#!/usr/bin/env python3
"""Monitors of the litcheck command line: ./check <property> runs one of them."""
import importlib, os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import base

def plain_signals():
    """What this process ignores or blocks (SIGHUP under nohup) would be inherited by the commands of the tests."""
    for s in signal.valid_signals():
        if s not in (signal.SIGKILL, signal.SIGSTOP, signal.SIGPIPE) and signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])

def main():
    plain_signals()
    prop = sys.argv[1]
    only = None
    if "--case" in sys.argv:
        only = sys.argv[sys.argv.index("--case") + 1]
    mod = importlib.import_module(prop.lower())
    ctx = base.Ctx(prop)
    ok = ctx.run(mod.STREAMS, only)
    if only:
        sys.exit(0 if ok else 1)
    for key, fn in getattr(mod, "PROBES", {}).items():
        ctx.probe(key, fn)
    sys.exit(ctx.finish(mod.RULE, getattr(mod, "ASSUMPTIONS", ())))

main()
