"""C21: generate_tables.py, its transformation and its command."""
import contextlib
import importlib.util
import io
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import zipfile
from functools import lru_cache
from pathlib import Path

import tableformat
from engine import VERIF, CheckError, outcome
from model import BY_CAT, CATS, MAX, VERSIONS
from specs import REPO

SCRIPT = REPO / "generate_tables.py"
UPSTREAM = Path(__file__).parent / "upstream"


def module():
    spec = importlib.util.spec_from_file_location("generate_tables", SCRIPT)
    m = importlib.util.module_from_spec(spec)
    argv = sys.argv
    sys.argv = [str(SCRIPT)]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            spec.loader.exec_module(m)
    except (Exception, SystemExit):
        # Not made to be imported: the command alone is looked at.
        return None
    finally:
        sys.argv = argv
    return m


def assignment_of(case):
    """A split of the code space into the 30 categories: a bundled version, or made from a seed."""
    if case["data"] in VERSIONS:
        return {c: list(BY_CAT[case["data"]][c]) for c in CATS}
    rng = random.Random(case["data"])
    cuts = sorted({0, *(rng.randrange(MAX + 1) for _ in range(rng.choice([31, 60, 200, 2000]))), *(rng.randrange(600) for _ in range(40))})
    out = {c: [] for c in CATS}
    prev = None
    order = rng.sample(CATS, len(CATS))
    for i, (a, b) in enumerate(zip(cuts, cuts[1:] + [MAX + 1])):
        # The first thirty runs see to it that every category has members.
        c = order[i] if i < len(order) else rng.choice([x for x in CATS if x != prev])
        out[c].append((a, b - 1))
        prev = c
    return {c: tableformat.coalesce(x) for c, x in out.items()}


def compare(before, after, assignment):
    """The upstream text, the transformed text, and the assignment they stand for."""
    try:
        header, names, tables = tableformat.read_module(after)
    except ValueError as e:
        return f"the result does not read back: {e}"
    want_names = sorted(n.upper() for n in tableformat.FULL.values())
    if names != want_names:
        return f"BY_NAME lists {names}, expected {want_names}"
    if sorted(tables) != want_names:
        return f"tables {sorted(set(tables) ^ set(want_names))} are missing or extra"
    for c in CATS:
        got, want = tables[tableformat.FULL[c].upper()], assignment[c]
        if got != [tuple(i) for i in want]:
            return f"{c}: read back {str(got)[:200]}, expected {str(want)[:200]}"
    # Nothing but the list of names differs.
    def rest(text):
        head, _, tail = text.partition("pub const BY_NAME")
        return head.splitlines(), tail.partition("];")[2].splitlines()

    if rest(before) != rest(after):
        return "lines outside of the list of names were changed"
    return None


def check_transform(m, case):
    assignment = assignment_of(case)
    before = tableformat.emit(assignment, case["version"], case["arguments"], columns=case["columns"], tool=case["tool"])
    kind, got = outcome(m.transform_code, before.encode())
    if kind == "raised":
        return f"{case}: raised {got!r}"
    if not isinstance(got, bytes):
        return f"{case}: returned a {type(got).__name__}"
    message = compare(before, got.decode(), assignment)
    return f"{case}: {message}" if message else None


def rand_transform(rng):
    a, b, c = rng.randrange(4, 30), rng.randrange(3), rng.randrange(2)
    name = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))
    return {
        "data": rng.choice([*VERSIONS, *(rng.randrange(1 << 40) for _ in range(8))]),
        "version": f"{a}.{b}.{c}",
        "arguments": f"general-category {rng.choice(['/tmp', '/var/tmp/build-7', '/home/user/ucd'])}/tmp{name} --exclude="
        + ",".join(["Separator", "Symbol", "Cased_Letter", "Letter", "Mark", "Number", "Other", "Punctuation"]),
        "columns": rng.choice([79, 79, 79, 60, 100, 120, 200]),
        "tool": rng.choice(["0.2.15", "0.3.0", "0.3.1"]),
    }


def snapshot(root):
    return {str(p.relative_to(root)): p.read_bytes() if p.is_file() else None for p in sorted(root.rglob("*"))}


def check_command(case, control=True):
    """Runs the script, once or more, in a scratch directory of its own, with a stand-in for the network and for ucd-generate."""
    together = [v for r in case["runs"] for v in r.get("together", [])]
    if not (all(re.fullmatch(r"\d+\.\d+\.\d+", v) for v in case["served"]) and all(n.endswith(".rs") or n == "generate_tables.py" for n in case["existing"])
            and set(together) <= set(case["served"]) and all(len(set(r["together"])) == len(r["together"]) > 1 for r in case["runs"] if "together" in r)):
        raise CheckError(f"no such case: {case}")
    base = VERIF / "build" / "scratch"
    base.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=base) as top:
        top = Path(top)
        work, served, tmp = top / "work", top / "served", top / "tmp"
        for d in (work, served, tmp):
            d.mkdir()
        assignments = {}
        for version, data in case["served"].items():
            assignments[version] = assignment_of({"data": data})
            with zipfile.ZipFile(served / f"{version}.zip", "w") as z:
                z.writestr("extracted/DerivedGeneralCategory.txt", tableformat.ucd_text(assignments[version], version))
        for name in case["existing"]:
            p = work / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(f"// {name}\n" * case.get("lines", 3))
        for n, run in enumerate(case["runs"]):
            message = some_runs(top, assignments, run, control)
            if message:
                return f"{case}: run {n}: {message}"
    return None


FAULTS = {"upstream": ("fail", "partial", "killed", "late"), "network": ("unreachable", "timeout", "unavailable", "page", "damaged", "short")}


def faulty(run):
    return run["upstream"] in FAULTS["upstream"] or run.get("network", "") in FAULTS["network"]


def start(top, run, gate):
    env = {
        "PATH": f"{UPSTREAM}:/usr/local/bin:/usr/bin:/bin", "HOME": str(top), "TMPDIR": str(top / "tmp"), "PYTHONPATH": str(UPSTREAM),
        "PYTHONDONTWRITEBYTECODE": "1", "UVH_SERVED": str(top / "served"), "UVH_REQUESTS": str(top / "requests"),
        "UVH_PYCHECK": str(UPSTREAM.parent), "UVH_UPSTREAM": run["upstream"], "UVH_NETWORK": run.get("network", ""),
        "UVH_GATE": gate, "UVH_VERIF": str(VERIF),
    }
    return subprocess.Popen([sys.executable, str(SCRIPT), *run["args"]], cwd=top / "work", env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)


def some_runs(top, assignments, run, control):
    """One run of the command, or several of different versions at the same time."""
    several = [{"args": [v], "upstream": ""} for v in run["together"]] if "together" in run else [run]
    for r in several:
        if r["upstream"] not in ("", "warn", *FAULTS["upstream"]) or r.get("network", "") not in ("", *FAULTS["network"]):
            raise CheckError(f"no such case: {r}")
    work = top / "work"
    before = snapshot(work)
    (top / "requests").write_text("")
    (top / "requests.other").unlink(missing_ok=True)
    gate = ""
    if len(several) > 1:
        gate = tempfile.mkdtemp(dir=top)
        gate = f"{gate}:{len(several)}"
    processes = [start(top, r, gate) for r in several]
    outputs = []
    for p in processes:
        for _ in range(120):
            with contextlib.suppress(subprocess.TimeoutExpired):
                outputs.append(p.communicate(timeout=1)[0])
                break
        else:
            for q in processes:
                q.kill()
                q.wait()
            return "no end within two minutes"
    after = snapshot(work)
    requests = (top / "requests").read_text().split()
    other = (top / "requests.other").read_text() if (top / "requests.other").exists() else ""
    files = {n for n in {*before, *after} if before.get(n) != after.get(n)}
    targets = set()
    for r, p, output in zip(several, processes, outputs):
        message, target = one_run(after, assignments, r, p.returncode, output, files, requests, other, control)
        if message:
            return f"{r}: {message}"
        targets.add(target)
    if files - targets - {"src", "src/tables"}:
        return f"changed {sorted(files)}, expected only {sorted(targets)}"
    return None


def one_run(after, assignments, run, code, output, files, requests, other, control):
    """(what is wrong or None, the file it was to write)."""
    args = run["args"]
    where = f"exit {code}"
    if not (len(args) == 1 and args[0] in assignments and not faulty(run)):
        if code == 0:
            return f"{where}, although it could not succeed", None
        return (f"{where}, yet it changed {sorted(files)}" if {n for n in files if n not in ("src", "src/tables")} else None), None
    target = f"src/tables/v{args[0].replace('.', '_')}.rs"
    if code:
        if other and not requests and not (control and plain_run_works()):
            raise CheckError(f"{run}: {where}: it asked for the data in a way that is not replaced here: {other}: {output[-1500:]}")
        return f"{where}: {output[-600:]}", target
    if target not in after:
        return f"{where}, did not write {target}", target
    assignment = assignments[args[0]]
    # The table is written as bytes taken from ucd-generate's standard output.
    text = after[target].decode()
    upstream = tableformat.emit(assignment, args[0], "general-category X --exclude=" + "Y")
    # The header names the temporary directory; all else is known.
    head = re.sub(r"ucd-generate general-category .*", "ucd-generate general-category X --exclude=Y", text)
    if not re.search(rf"(?m)^// Unicode version: {re.escape(args[0])}\.$", text):
        return f"{where}: the module is not of version {args[0]}", target
    message = compare(upstream, head, assignment)
    return (f"{where}: {message}" if message else None), target


@lru_cache(maxsize=1)
def plain_run_works():
    """Whether the stand-ins serve the command at all; if not, it gets its data in a way unknown here."""
    try:
        return check_command({"runs": [{"args": ["16.0.0"], "upstream": ""}], "served": {"16.0.0": "16.0.0"}, "existing": []}, control=False) is None
    except CheckError:
        return False


def rand_command(rng):
    near = rng.randrange(1, 30)

    def version():
        k = rng.randrange(4)
        if k == 0:
            return rng.choice([*VERSIONS, "18.0.0", "10.1.0"])
        if k == 1:
            return f"{near}.{rng.randrange(4)}.{rng.randrange(3)}"
        return f"{rng.randrange(1, 30)}.{rng.randrange(12)}.{rng.randrange(12)}"

    def data():
        return rng.choice([*VERSIONS, rng.randrange(1 << 40), rng.randrange(1 << 40)])

    served = {version(): data() for _ in range(rng.randrange(1, 5))}
    asked = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        v = rng.choice(list(served)) if rng.randrange(8) else version()
        args = [v] if rng.randrange(10) else rng.choice([[], [v, version()], [v, v], [version(), v]])
        if len(served) > 1 and not rng.randrange(6):
            asked.append({"together": rng.sample(list(served), rng.randrange(2, min(len(served), 4) + 1))})
        else:
            upstream = rng.choice(["", "", "", "warn", *FAULTS["upstream"]]) if rng.randrange(2) else ""
            network = rng.choice(FAULTS["network"]) if not rng.randrange(6) else ""
            asked.append({"args": args, "upstream": upstream, "network": network})
    names = [f"src/tables/v{v.replace('.', '_')}.rs" for v in {*served, version(), version()}]
    existing = rng.choice([[], names, ["src/tables/mod.rs", "src/lib.rs", "v9_0_0.rs"], [*names, "src/tables/mod.rs", "generate_tables.py"]])
    return {"runs": asked, "served": served, "existing": sorted(existing), "lines": rng.choice([1, 3, 3, 40_000])}


def c21(s, _):
    m = module()
    # Its parts may be called in other ways than here: what is promised is what the command does.
    plain = {"data": "16.0.0", "version": "16.0.0", "arguments": "general-category /tmp/tmpabc", "columns": 79, "tool": "0.2.15"}
    if hasattr(m, "transform_code") and not (check_transform(m, plain) and plain_run_works()):
        s.bulk("transformation", 3_000, rand_transform, lambda c: check_transform(m, c), lambda c: (True, ("a bundled version",) if c["data"] in VERSIONS else ("made up",)))
        s.sweep("bundled versions", [{"data": v, "version": v, "arguments": "general-category /tmp/tmpabc", "columns": c, "tool": "0.2.15"}
                                     for v in VERSIONS for c in (40, 50, 79, 80, 120)], lambda c: check_transform(m, c))
    def classify(case):
        fine = ["together" in r or len(r["args"]) == 1 and r["args"][0] in case["served"] and not faulty(r) for r in case["runs"]]
        return bool(fine), [*(["runs at the same time"] if any("together" in r for r in case["runs"]) else []), *(["a run that may succeed"] if any(fine) else []), *(["a run that must fail"] if not all(fine) else []),
                            *(["several runs"] if len(fine) > 1 else []),
                            *(["one that may succeed after one that must fail"] if any(fine[fine.index(False):] if False in fine else []) else [])]

    s.bulk("commands", 300, rand_command, check_command, classify)
    return {
        "rule": "Tables in the upstream format from bundled versions and made-up assignments of the code space, through the "
                "transformation alone and through the command with its download and ucd-generate replaced, including runs "
                "where one of these fails. Every case counts.",
        "assumptions": ["the upstream format is as written by tableformat.emit: ucd-generate is not installed here",
                        "urllib.request and the ucd-generate on PATH are stand-ins"],
    }
