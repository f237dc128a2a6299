#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the table of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
MON = "runtime monitoring: "
FC = MON + "generated check files, inputs and options are run through the library; verdict and every reported match are compared online with a reference model of FileCheck"
FCN = "Trusts the reference model; cases that the property leaves open are skipped and counted."
CLI = MON + "the built command line tool runs generated suites; "
CHECKS = {
 "C01": (FC, FCN),
 "C02": (FC, FCN),
 "C03": (FC, FCN),
 "C04": (FC, FCN),
 "C05": (FC, FCN),
 "C06": (FC, FCN),
 "C07": (FC, FCN),
 "C08": (FC, FCN + " --match-full-lines has no effect (known finding), so it is only probed."),
 "C09": (FC, FCN),
 "C10": (FC, FCN),
 "C11": (MON + "hostile and mutated check files, inputs and options under a panic, abort and hang monitor; malformed check files must be rejected", "Overflow and debug assertions on; a watchdog of 20 s per verification; an abort of the process is observed by a parent process."),
 "C12": (MON + "every verification is digested and compared with its digest alone: repeated, after others, on many threads, in other processes", "Schedules are those the OS gives; the digest covers matches and rendered reports."),
 "C13": (MON + "metamorphic monitor: each verification again with other line ends, results compared", "Carriage returns only before line feeds."),
 "C14": (MON + "every label of every report and every reported match is compared with the reference model and the files", "Trusts the reference model for which check fails; after the first failure later reports are not judged."),
 "C16": (MON + "every label and region that reports show of the input, in every --dump-input mode, is compared with the reference model's searches; the remarks of the built tool are compared with the checks constructed to match", "Trusts the reference model for where a check is searched for; after the first failure each claim is judged for its own truth only."),
 "K01": (MON + "generated texts and edit histories, every location query compared online with a naive scan of the text", "Every offset, line and column of each observed text is compared. Trusts the naive scan."),
 "K02": (MON + "generated histories and multi-threaded stress of the source manager against a reference store", "All handles ever given out are re-read after every step. Thread schedules are those the OS gives."),
 "K03": (MON + "generated histories of path trees against a flat map, on virtual and real directories", "Small alphabets of components. Trusts the flat map."),
 "K04": (MON + "multi-threaded interning stress, offline check of the recorded (text, symbol) log", "Schedules are those the OS gives with more threads than cores."),
 "K05": ("sanitizers and runtime monitoring: workloads on every component with unsafe code run under Miri, AddressSanitizer, ThreadSanitizer and with native precondition checks; their reports decide, together with monitors of values that the unsafe code promises", "Undefined behaviour is seen where it is executed. Miri runs without forced preemption, because it rejects the futex calls of parking_lot; data races are left to ThreadSanitizer."),
 "K06": (MON + "generated operation histories of test lists against a plain sequence, sequential and parallel consumption", "Identities of all tests are compared after every step."),
 "K07": (MON + "generated ranges and texts against position sets and naive scans", "Small ranges, texts dense in line ends."),
 "K08": (MON + "generated directory trees, files and definitions, found and read through the library and compared with the tree and text constructed on disk", ""),
 "L01": (CLI + "the reported results, lists, counts and exit status are compared with the generated tests and with the event log that the tests themselves wrote", "Includes runs with interrupted, duplicated and overlapping selections, 1 to 32 jobs."),
 "L02": (CLI + "each test's verdict is compared with the one its script and directives are constructed to have", ""),
 "L03": (CLI + "the commands that RUN lines executed, as logged by the commands, are compared with those the test text spells out", ""),
 "L04": (CLI + "the expanded commands, as logged by the commands, are compared with a reference substitution", ""),
 "L05": (MON + "generated conditions are evaluated by the library over generated feature sets, and put on tests run by the built tool; values, rejections, statuses and logged executions are compared with a reference evaluator", "Trusts the reference evaluator, which has its own regular expression matcher."),
 "L06": (CLI + "the logged executions of tests that fail a chosen number of times are counted against the allowed retries", ""),
 "L07": (CLI + "tests that hang in many ways are run under a timeout; wall clock, verdicts and surviving processes are observed", "Timing bounds are generous; cases are retried before they count."),
 "C15": (MON + "check files and inputs of known verdict are verified by the built command line tool in many equivalent ways; exit statuses are compared with the verdict", ""),
 "L08": (CLI + "suites discovered, tests selected and tests executed (from their own log) are compared with those constructed on disk", "Observed through show-suites, show-tests and run."),
 "L09": (CLI + "tests log the configuration they were run with, which is compared with a reference resolution of the files, options and defaults", ""),
 "L10": (CLI + "concurrent tests log the values, files and output they see; an offline check looks for any that belong to another test", "Schedules are those the OS gives under rendezvous and load; the output stream is retried once."),
 "L11": (MON + "commands that log how they were run and end in every way are run through `not`; exit status and log are compared", "All exit codes and the listed signals are enumerated."),
 "L12": (CLI + "equivalent command lines under every name are compared by their reports, executions and exit statuses; invalid ones must execute nothing", "`lit PATH` without a command is a known finding, so it is only probed."),
 "L14": (CLI + "each detail that is printed about a test is compared with its commands, output, end, features or mistake as constructed", "The trace of the shell itself is not judged."),
 "L13": (MON + "hostile and mutated scripts and configurations are given to the parsers under a panic monitor, and hostile suites, names, outputs, streams and command lines to the built tool, whose status, reports and executions are judged", "Every run has a time limit; the tool is built with overflow and debug assertions."),
}
LATER = "check under construction"
m = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
                            "technique": t, "level": "exploration", "level_note": n or "Every generated case is executed by the real tool and judged from what it did."})
    else:
        m["not_applicable"].append({"property": p, "reason": LATER})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
