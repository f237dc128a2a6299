from base import *

RULE = ("One case is a check file with a word of its own in each check and an input with those words in order, of which one may be missing, verified with each verbosity: the remarks name exactly the checks that "
        "matched, each in its place in the check file, and none are printed without -v. Non-trivial: by check file and input.")
ASSUMPTIONS = ["what follows the first failure in a check file may or may not be remarked upon", "the order of remarks about different checks is not judged"]

REMARK = re.compile(r"^\[(.*)@(\d+):(\d+)\]: remark: (\S+): (.*)$")

def remarks(case):
    rng = case.rng
    p = rng.choice(["CHECK", "CHECK", "CHECK", "FOO", "A-B"])
    lines, text, units, n, cur = [], [], [], [0], None
    def word():
        n[0] += 1
        return "w%03dq" % n[0]
    def pattern(w):
        k = rng.random()
        return (w if k < .6 else "{{%s}}" % w if k < .7 else "{{y+$|%s}}" % w if k < .75 else "w{{%s}}" % w[1:] if k < .85 else "[[V%d:%s]]" % (n[0], w) if k < .95 else "%s{{ *}}" % w)
    def put(line):
        if rng.random() < .3:
            lines.append(rng.choice(["", "some text", "; RUN: tool", "# nothing"]))
        lines.append(rng.choice(["", "// ", "  ; ", "# "]) + line)
        return len(lines)
    # a unit: (line of the check, suffix, column of the pattern, times), and the words it needs
    def check(suffix, pat, times=1):
        lit = "{LITERAL}" if suffix in ("", "-NEXT", "-SAME") and "{" not in pat and "[" not in pat and rng.random() < .1 else ""
        blanks = " " * rng.choice([1, 1, 2, 4])
        l = put("%s%s%s:%s%s" % (p, suffix, lit, blanks, pat))
        col = len(lines[l - 1].encode()) - len(pat.encode()) + 1
        return (l, suffix, col if pat else None, times)
    missing = None
    body, labelled = [], rng.random() < .3
    plan = []
    for b in range(rng.choice([1, 1, 2, 3]) if labelled else 1):
        if labelled:
            plan.append("LABEL")
        for _ in range(rng.randint(1, 6)):
            plan.append(rng.choice(["", "", "", "-NEXT", "-SAME", "-EMPTY", "-COUNT", "-DAG", "-DAG", "-NOT"]))
    while plan and plan[0] in ("-NEXT", "-SAME", "-EMPTY"):
        plan.pop(0)
    if not [x for x in plan if x != "-NOT"]:
        plan.append("")
    want = []      # (unit, words) in order
    for i, d in enumerate(plan):
        w = word()
        prev = plan[i - 1] if i else None
        if d == "LABEL":
            u = check("-LABEL", w)
            text.append(w)
            want.append((u, len(text) - 1, 1))
        elif d == "":
            u = check("", pattern(w))
            text.append(rng.choice(["", "", "x "]) + w)
            want.append((u, len(text) - 1, 1))
            if rng.random() < .3:
                text.append("between")
        elif d in ("-NEXT", "-SAME", "-EMPTY"):
            # these need the line of the match before
            if not want or prev == "-NOT" or prev == "-DAG" or text[-1] == "between" and d == "-SAME":
                continue
            while text[-1] == "between":
                text.pop()
            if d == "-NEXT":
                u = check(d, pattern(w).replace("$|", "|"))
                text.append(w)
                want.append((u, len(text) - 1, 1))
            elif d == "-SAME":
                if want[-1][0][1] in ("-LABEL", "-EMPTY"):
                    continue
                u = check(d, pattern(w).replace("$|", "|"))
                text[-1] += " " + w
                want.append((u, len(text) - 1, 1))
            else:
                u = check(d, "")
                text.append("")
                want.append((u, len(text) - 1, 1))
        elif d == "-COUNT":
            k = rng.choice([1, 2, 3, 5])
            u = check("-COUNT-%d" % k, w, k)
            first = len(text)
            for _ in range(k):
                text.append(w)
            want.append((u, first, k))
        elif d == "-DAG":
            u = check("-DAG", w)
            text.append(w)
            want.append((u, len(text) - 1, 1))
        else:
            check("-NOT", "never-%d" % i)
    text.append("end")
    fail_at = None
    if rng.random() < .5:
        ok = [k for k, (u, at, t) in enumerate(want) if u[1] not in ("-LABEL", "-EMPTY")]
        if ok:
            k = rng.choice(ok)
            u, at, t = want[k]
            got = t - 1 if t > 1 and rng.random() < .7 else 0
            # the word of this check goes missing, from some repetition on
            pos = at + got if t > 1 else at
            name = re.search(r"w\d{3}q", lines[u[0] - 1]) or re.search(r"w\{\{(\d{3}q)", lines[u[0] - 1])
            name = name.group(0).replace("{{", "")
            for j in range(pos, at + t):
                text[j] = text[j].replace(name, "gone")
            fail_at = (k, got)
    case.write("checks", "\n".join(lines) + rng.choice(["", "\n"]))
    case.write("input", "\n".join(text) + "\n")
    shown = "--- checks\n%s\n--- input\n%s\n---" % ("\n".join(lines), "\n".join(text))
    case.note("%d checks, %s" % (len(want), "one missing" if fail_at else "all there"))
    expected = collections.Counter()
    limit = None
    for k, (u, at, t) in enumerate(want):
        line, suffix, col, times = u
        kind = p if False else "CHECK" + (suffix if not suffix.startswith("-COUNT") else "")
        if fail_at and k >= fail_at[0] and suffix != "-LABEL":
            if k == fail_at[0]:
                limit = line
                for j in range(fail_at[1]):
                    expected[(line, kind, "expected string found in input (%d of %d times)" % (j + 1, times))] += 1
            continue
        if suffix.startswith("-COUNT"):
            for j in range(times):
                expected[(line, kind, "expected string found in input (%d of %d times)" % (j + 1, times))] += 1
        else:
            expected[(line, kind, "expected string found in input")] += 1
    cols = {u[0]: u[2] for u, *_ in want}
    base = ["--check-prefix=" + p] if p != "CHECK" else []
    verdict = 1 if fail_at else 0
    quiet = case.run(["filecheck"] + base + ["--input-file", "input", "checks"])
    case.ensure(quiet.rc == verdict, "exit status %d instead of %d" % (quiet.rc, verdict), shown, quiet)
    case.ensure("remark:" not in quiet.err + quiet.out, "remarks without -v", shown, quiet)
    case.evaluated()
    v = rng.choice([["-v"], ["--verbose"], ["-vv"], ["-v", "--dump-input=never"], ["-v", "--dump-input=always"], None])
    loud = case.run(["filecheck"] + base + (v or []) + ["--input-file", "input", "checks"], env={"FILECHECK_OPTS": "-v"} if v is None else {})
    case.ensure(loud.rc == verdict, "exit status %d instead of %d with %s" % (loud.rc, verdict, v), shown, loud)
    case.ensure(not loud.out, "output on standard output", shown, loud)
    seen = collections.Counter()
    for l in loud.err.split("\n"):
        m = REMARK.match(l)
        if not m:
            continue
        f, line, col, kind, what = m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5)
        if kind == "CHECK-NOT":
            case.ensure("-NOT" in lines[line - 1], "a remark about -NOT names line %d" % line, shown, loud)
            continue
        case.ensure(os.path.basename(f) == "checks", "a remark names the file %r" % f, shown, loud)
        case.ensure(line in cols, "a remark names line %d, which has no such check" % line, shown, loud)
        if cols[line]:
            # the pattern may be located by what is within its braces
            case.ensure(cols[line] <= col <= cols[line] + 2, "a remark names column %d of line %d instead of %d" % (col, line, cols[line]), shown, loud)
        seen[(line, kind, what)] += 1
    case.count("remarks", sum(seen.values()))
    for key, c in expected.items():
        # what follows a -DAG group is searched for a second time if it is missing
        twice = fail_at and key[0] == limit and "times)" in key[2] and any("-DAG:" in l for l in lines[:limit])
        case.ensure(seen[key] == c or twice and seen[key] == 2 * c, "%d remarks instead of %d: line %d: %s: %s" % ((seen[key], c) + key), shown, loud)
        case.count("remarks about " + key[1], c)
    for key, c in seen.items():
        if key in expected or limit is not None and key[0] > limit:
            continue
        case.fail("an unexpected remark: line %d: %s: %s" % key, shown, loud)
    if fail_at:
        case.count("a check is missing")
        # the report shows what the remarks said
        for line, kind, what in expected:
            if kind != "CHECK-EMPTY":
                case.ensure(v and "--dump-input=never" in v or "matched by the check on line %d" % line in loud.err, "the dump does not show the match of the check on line %d" % line, shown, loud)
    case.evaluated(shown)

STREAMS = [("remarks", 700, 9000, remarks)]
