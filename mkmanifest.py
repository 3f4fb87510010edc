"""Writes MANIFEST.json from the table below."""
import json
import pathlib

HERE = pathlib.Path(__file__).parent
RUST = "property-based testing (proptest + enumerated generators) against a reference model"
PY = "property-based testing (Hypothesis + enumerated and random generators) against a reference model"
C = {
    "C01": (RUST, "Generated search plus exhaustive families (every code point alone in every role, every window below 264, every category edge). Trusts refdata/gc.txt for the meaning of categories."),
    "C02": ("property-based testing: validity predicate over generated queries", "Generated search; the canonical-form predicate needs no reference data."),
    "C03": ("metamorphic property-based testing", "Twelve relations between generated queries; needs no reference data."),
    "C04": ("property-based testing with boundary enumeration over u32 pairs", "Exact expected error for every generated pair."),
    "C05": ("stateful (model-based) property-based testing", "Call sequences against a record of last values; results against the reference model."),
    "C06": ("stateful property-based testing of histories and of generated thread schedules (seeded scheduler inside the instrumented code)", "Near-identical queries in sequence and from threads, each against the reference model; seeded schedules of one to four threads in fresh processes. Reorderings of relaxed atomics are not explored."),
    "C07": ("property-based testing against a rank/select model; exhaustive per category", "Every position and code point of every category of every version, and generated sets with any u32 probe."),
    "C08": ("stateful property-based testing of iterators", "Operation sequences from both ends against positions in the interval list."),
    "C09": ("exhaustive generated enumeration with an exactly-one-category oracle", "Complete over versions x categories x code points."),
    "C10": ("differential testing against independently built reference data, exhaustive", "Complete over versions x code points. Trusts refdata/gc.txt."),
    "C11": ("stateful (model-based) property-based testing", "Operation sequences against bit sets kept by the harness."),
    "C12": ("property-based testing: round trip and mutated names, exhaustive short strings", "Every ASCII string up to three characters, and generated near-misses."),
    "C13": ("property-based testing against a set model", "Generated lists, every subset of major classes with every category."),
    "C14": ("exhaustive generated enumeration with an ordering oracle", "Complete: the domain is finite."),
    "C15": (PY, "Generated calls in every iterable and version form, and enumerated categories, windows, characters and table edges. Trusts refdata/gc.txt."),
    "C16": ("property-based testing with generated invalid values and fault-raising iterables, and an exact oracle for the exception", "Generated search, plus every kind of value in every parameter."),
    "C17": (PY, "Exhaustive over versions, pairs of versions and pairs of names; generated lists and strings."),
    "C18": ("differential property-based testing against Hypothesis's charmap and unicodedata", "One Unicode version: that of the installed interpreter."),
    "C19": ("stateful (model-based) property-based testing of call histories, in fresh processes and threads", "Thread interleavings are the interpreter's own, with the shortest switch interval."),
    "C20": (RUST, "Through the repository's own __benchmark_internals feature; exhaustive for small lists."),
    "C21": ("property-based testing: round trip of generated tables, and the command under injected failures", "The upstream format is modelled: ucd-generate is not installed here."),
    "C22": ("property-based testing: calls generated from the declared signatures, results checked against the declared types", "Annotations that are not understood are left out (none are now)."),
    "C23": ("stateful property-based testing: generated histories with an allocation-counting invariant", "A leak of less than one byte in eight calls, or a cache bounded at more than a hundred thousand calls, is not told from none."),
    "C24": ("stateful property-based testing: generated calls and histories with invariants over reference counts and memory in use", "CPython's own counters; forms of iterables that keep their items by themselves are left out."),
    "C25": ("property-based testing: generated input families with a metamorphic relation between input size and measured work", "A growth is told from a proportional one when it exceeds it by 40 times at 64 or 256 times the length; lookups are not measured."),
}
FUZZED = {f"C{i:02}" for i in range(1, 14) if i != 10} | {"C20"}
NA = {}

def main():
    ids = [json.loads(l)["id"] for l in (HERE / "properties.jsonl").read_text().splitlines()]
    checks = []
    for i in ids:
        if i in C:
            technique, note = C[i]
            if i in FUZZED:
                technique += "; coverage-guided fuzzing (libFuzzer) of the same campaigns"
            checks.append({
                "property": i,
                "quick_cmd": f"./run.sh {i}",
                "thorough_cmd": f"env VERIF_TIER=thorough ./run.sh {i}",
                "technique": technique,
                "level": "exploration",
                "level_note": note,
            })
    na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in C]
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "The only feature used is the repository's own __benchmark_internals; no hooks were added. "
        "VERIF_TIER selects the depth.",
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")

if __name__ == "__main__":
    main()
