#!/usr/bin/env python3
"""C35: the spec coverage report of sdd, against what the pages and the markers in the
tests say, for all combinations of pages and markers of bounded spaces.

  check.py            quick (VERIF_TIER=thorough: deeper)
  check.py replay FILE

The program only reads; it is run in a scratch tree made here."""
import itertools, json, os, shutil, subprocess, sys, tempfile, time

ID = "C35"
HOME = os.environ.get("MC_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SDD = os.path.join(os.environ.get("CARGO_TARGET_DIR") or os.path.join(HOME, "target"), "release", "sdd")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
started = time.time()

# ------------------------------------------------------------------ cases

# A case: (lines of the page, marked blocks [(verifies?, lines)], layout, line end).
LAYOUTS = ["plain", "same line", "in functions", "two hashes", "with code"]


def source(page, blocks, layout, end="\n"):
    """A test file with the blocks."""
    out = ["use crate::tests::prelude::*;", "", f'track_file!("{page}");', ""]
    for n, (verifies, lines) in enumerate(blocks):
        macro = "verifies!" if verifies else "non_normative!"
        h = "##" if layout == "two hashes" else "#"
        if layout == "in functions":
            out += ["#[test]", f"fn t{n}() {{", f"    {macro}(", f'        r{h}"']
        elif layout == "same line":
            out += [f'{macro}(r{h}"']
        else:
            out += [f"{macro}(", f'    r{h}"']
        out += lines
        out += [f'"{h}', ");", ""]
        if layout == "in functions":
            out += ["    let doc = Parser::default().parse(\"a\");", "}", ""]
        if layout == "with code":
            out += ["// a", "a", "b", 'const X: &str = "b";', ""]
    return end.join(out)


def expected(page, blocks):
    """Line number -> 1 (verified by a test), 0 (by none)."""
    marked = [(v, l) for v, lines in blocks for l in lines]
    out = {}
    for n, line in enumerate(page):
        if not line:
            continue
        if n >= len(marked):
            out[str(n + 1)] = 0
        elif marked[n] == (True, line):
            out[str(n + 1)] = 1
    return out


def texts(of, most):
    return [list(t) for n in range(most + 1) for t in itertools.product(of, repeat=n)]


def cases():
    def block(of, most):
        return [(v, l) for v in (True, False) for l in texts(of, most)]

    ab = ["a", "b", ""]
    # one block in all layouts
    for l in LAYOUTS:
        for b in block(ab, 2 if not THOROUGH else 3):
            for p in texts(ab, 3):
                yield "one block", (p, [b], l, "\n")
    # several blocks
    for k in (0, 2, 3):
        for bs in itertools.product(block(ab if k < 3 else ["a", ""], 2 if k < 3 else (1 if not THOROUGH else 2)), repeat=k):
            for p in texts(["a", ""] if k == 3 or not THOROUGH else ab, 3):
                yield "several blocks", (p, list(bs), "plain", "\n")
    # odd lines
    odd = ["== A", " a", "a ", "// c", "[verse]", '"quoted"', "fn x() {", "\t", "é", "\\", "{", "}", ");", "# a", "track", "verifies", "a\"#", "a]"]
    for a in odd:
        for b in odd:
            for l in ("plain", "in functions"):
                yield "odd lines", ([a, "", b], [(True, [a, ""]), (False, [b])], l, "\n")
                yield "odd lines", ([a, b], [(True, [b, a])], l, "\n")
                yield "odd lines", ([a, b, a], [(False, [a]), (True, [b])], l, "\n")
    # lines that are almost the same
    for a in odd + ["a", "b"]:
        for b in {a + " ", " " + a, a + "\t", a.strip(), a.upper(), a + "x", a[:-1], a + a, a.replace("a", "á")} - {a}:
            for v in (True, False):
                yield "similar lines", ([b, "c"], [(v, [a, "c"])], "plain", "\n")
                yield "similar lines", ([a, "c"], [(v, [b]), (True, ["c"])], "plain", "\n")
    # line ends
    for e in ("\r\n", "\n"):
        for b in block(ab, 2):
            for p in texts(ab, 2):
                yield "line ends", (p, [b], "plain", e)


def either(page, blocks):
    """Lines that differ from what was marked for them: not verified, whether listed or not."""
    marked = [l for _, lines in blocks for l in lines]
    return [str(n + 1) for n, (a, b) in enumerate(zip(page, marked)) if a and a != b]


def names(n):
    """Where page and tests of case n are: in directories of several depths."""
    d = f"{n // 1000}/{n // 50 % 20}" if n % 3 else f"{n // 1000}"
    return f"docs/modules/{d}/p{n}.adoc", f"parser/src/tests/{d}/t{n}.rs"


# ------------------------------------------------------------------ the program


def write(root, path, text):
    path = os.path.join(root, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", newline="") as f:
        f.write(text)


def run(root):
    os.makedirs(os.path.join(root, "sdd"), exist_ok=True)
    try:
        return subprocess.run([SDD], cwd=os.path.join(root, "sdd"), capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None


def strict(pairs):
    keys = [k for k, _ in pairs]
    if len(keys) != len(set(keys)):
        raise ValueError("a name is there twice")
    return dict(pairs)


def report(root):
    """The report, or what is wrong with it."""
    r = run(root)
    if r is None:
        return None, "did not end"
    if r.returncode:
        return None, f"failed: {r.stderr.decode(errors='replace')[-300:]}"
    try:
        j = json.loads(r.stdout.decode(), object_pairs_hook=strict)
    except ValueError as e:
        return None, f"not JSON: {e}"
    if list(j) != ["coverage"] or not isinstance(j["coverage"], dict):
        return None, "has no coverage"
    return j["coverage"], None


def tree(todo, extra=True):
    """(scratch tree, what the report should say)"""
    root = tempfile.mkdtemp(prefix="sdd-")
    want = {}
    for n, (p, blocks, layout, end) in todo:
        page, test = names(n)
        write(root, page, end.join(p) + (end if p and n % 2 or p[-1:] == [""] else ""))
        write(root, test, source(page, blocks, layout, end))
        want[page] = expected(p, blocks)
    if extra:
        # Pages without tests, and files that aren't pages or tests.
        write(root, "docs/modules/untracked.adoc", "a\n\nb\n")
        want["docs/modules/untracked.adoc"] = {"1": 0, "3": 0}
        write(root, "docs/modules/x/empty.adoc", "")
        want["docs/modules/x/empty.adoc"] = {}
        write(root, "docs/modules/é p.adoc", "a")
        want["docs/modules/é p.adoc"] = {"1": 0}
        for f in (".hidden.adoc", ".git/p.adoc", "x/.y/p.adoc", "nav.txt", "p.adoc.bak", "adoc"):
            write(root, f"docs/modules/{f}", "a\n")
        write(root, "docs/other.adoc", "a\n")
        verified = source("docs/modules/untracked.adoc", [(True, ["a", "", "b"])], "plain")
        for f in (".hidden.rs", ".git/t.rs", "t.txt", "t.rs.orig", "rs"):
            write(root, f"parser/src/tests/{f}", verified)
        write(root, "parser/src/t.rs", verified)
        write(root, "parser/src/tests/none.rs", verified.replace("track_file", "track_nothing"))
        write(root, "parser/src/tests/gone.rs", source("docs/modules/gone.adoc", [(True, ["a"])], "plain"))
        write(root, "parser/src/tests/empty.rs", "")
    return root, want


def fail(kind, case, what):
    os.makedirs(os.path.join(HOME, "replays"), exist_ok=True)
    replay = os.path.join(HOME, "replays", f"{ID}-{int(time.time() * 1000):x}.json")
    with open(replay, "w") as f:
        json.dump({"property": ID, "kind": kind, "case": case, "what": what}, f, indent=1)
    print(f"{kind}: {json.dumps(case)}\n{what}")
    print(f"VIOLATION property={ID} replay={replay}")
    sys.exit(1)


def explore(todo, kind_of):
    root, want = tree(todo)
    try:
        got, problem = report(root)
    finally:
        shutil.rmtree(root)
    if problem:
        return None, problem
    by_page = {names(n)[0]: (n, c) for n, c in todo}
    for page in sorted(set(got) | set(want), key=lambda p: by_page.get(p, (0,))[0]):
        of = by_page.get(page)
        lines = got.get(page)
        if of and isinstance(lines, dict):
            e = either(*of[1][:2])
            lines = {k: v for k, v in lines.items() if not (k in e and v == 0)}
        if lines != want.get(page):
            return by_page.get(page), f"{page}: got {got.get(page)}, expected {want.get(page)}"
    return None, None


def two_marks(blocks):
    """A test file that says twice what it is about is an error."""
    root, _ = tree([(1, (["a"], blocks, "plain", "\n"))])
    try:
        write(root, "parser/src/tests/twice.rs", 'track_file!("docs/modules/a.adoc");\ntrack_file!("docs/modules/b.adoc");\n')
        r = run(root)
    finally:
        shutil.rmtree(root)
    if r is None or r.returncode == 0 or b"twice.rs" not in r.stderr:
        return "a test file with two track_file! marks is not reported as an error"


def main():
    if sys.argv[1:2] == ["replay"]:
        r = json.load(open(sys.argv[2]))
        if r["kind"] == "two marks":
            what = two_marks(r["case"])
        else:
            c = r["case"]
            what = explore([(c[0], c[1])] if c else [], {})[1]
        if what:
            print(what)
            print(f"VIOLATION property={ID} replay={sys.argv[2]}")
            sys.exit(1)
        return print("holds")
    spaces, todo, samples = {}, [], []
    for n, (kind, c) in enumerate(cases()):
        if kind not in spaces:
            samples.append({"space": kind, "index": 0, "page": c[0], "marked": c[1], "layout": c[2]})
        spaces[kind] = spaces.get(kind, 0) + 1
        todo.append((n, c))
    samples.append({"space": kind, "index": spaces[kind] - 1, "page": c[0], "marked": c[1], "layout": c[2]})
    outcomes, runs = set(), 0
    size = 10_000
    for i in range(0, len(todo), size):
        part = todo[i : i + size]
        case, problem = explore(part, {})
        runs += 1
        if problem:
            # On its own, if that fails, too.
            if case is None:
                for one in part:
                    if explore([one], {})[1]:
                        case = one
                        break
            fail("report", case, problem)
        for _, (p, b, *_) in part:
            outcomes.add(json.dumps(expected(p, b)))
    for b in ([], [(True, ["a"])]):
        runs += 1
        what = two_marks(b)
        if what:
            fail("two marks", b, what)
    wall = time.time() - started
    steps = sum(len(p) + sum(len(l) for _, l in b) for _, (p, b, *_) in todo)
    evidence = {
        "property": ID,
        "tier": "thorough" if THOROUGH else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": len(outcomes),
            "transitions": steps,
            "traces_validated_against_impl": len(todo),
            "cases": len(todo),
            "runs": runs,
            "exhaustive": True,
            "rule": "every page with every file of marks of the spaces; many pages per run of the program; states: distinct reports of a page; transitions: lines of pages and marks",
            "spaces": spaces,
            "samples": samples,
        },
        "assumptions": ["cargo run in /repo/sdd does what the program does in a tree of the same form"],
        "wall_s": wall,
    }
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    with open(os.path.join(HOME, "evidence", f"{ID}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print(f"{ID}: {len(todo)} cases, {len(outcomes)} states, {steps} transitions, {len(todo)} executions, {wall:.1f} s")


main()
