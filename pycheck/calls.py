"""C15, C16, C17: single calls of the Python functions."""
import decimal
import enum
import fractions
import itertools
import random

from hypothesis import strategies as st

import specs
from engine import CheckError, outcome
from model import CATS, FULL_NAMES, GROUPS, LATEST, MAJOR, MAX, RUNS, VERSIONS, expand, normalized
from model import category as category_of
from model import query as model_query
from specs import names_arg, query_kwargs, version_arg, version_of

TRUST = ["refdata/gc.txt states the general categories of each version",
         "the interpreter, Hypothesis, and PyO3's build are those installed here"]


def valid_query(q):
    """Guards the cases that shrinking makes up."""
    lo, hi = q.get("min_codepoint"), q.get("max_codepoint")
    if not 0 <= (lo or 0) <= (MAX if hi is None else hi) <= MAX:
        raise CheckError(f"not a valid call: {q}")
    for key in ("categories", "exclude_categories"):
        if any(n not in FULL_NAMES for n in (q.get(key) or ["list", []])[1]):
            raise CheckError(f"not a valid call: {q}")


def want_query(q):
    valid_query(q)
    lo, hi = q.get("min_codepoint"), q.get("max_codepoint")
    inc, exc = q.get("categories"), q.get("exclude_categories")
    return model_query(
        version_of(q.get("version")),
        None if inc is None else inc[1],
        () if exc is None else exc[1],
        0 if lo is None else lo,
        MAX if hi is None else hi,
        q.get("include_characters", ""),
        q.get("exclude_characters", ""),
    )


def malformed(got):
    if type(got) is not tuple:
        return f"returned a {type(got).__name__}, not a tuple"
    prev = -2
    for item in got:
        if type(item) is not tuple or len(item) != 2 or type(item[0]) is not int or type(item[1]) is not int:
            return f"item {item!r} is not a pair of ints"
        if not prev + 1 < item[0] <= item[1] <= MAX:
            return f"item {item!r} is out of place"
        prev = item[1]
    return None


def diff(got, want):
    for i, (a, b) in enumerate(itertools.zip_longest(got, want)):
        if a != b:
            return f"interval {i} is {a}, expected {b} ({len(got)} and {len(want)} intervals)"
    return None


def check_query(ui, q):
    want = want_query(q)
    kind, got = outcome(ui.query, **query_kwargs(ui, q))
    if kind == "raised":
        return f"query({q}) raised {got!r}"
    bad = malformed(got) or diff(got, want)
    return f"query({q}): {bad}" if bad else None


def classify_query(q):
    restricted = any(q.get(k) is not None for k in ("categories", "exclude_categories", "min_codepoint", "max_codepoint"))
    chars = bool(q.get("include_characters") or q.get("exclude_characters"))
    labels = [k for k in q if q[k] not in (None, "")]
    return restricted or chars, labels


# ---- Long arguments, kept as plans ----

def long_text(blocks, order):
    out = []
    for start, count, step in blocks:
        out += (c % (MAX + 1) for c in range(start, start + count * step, step))
    if order == 1:
        out.reverse()
    elif order == 2:
        random.Random(len(out)).shuffle(out)
    elif order == 3:
        out += out
    return "".join(chr(c) for c in out if not 0xD800 <= c <= 0xDFFF)


SIZES = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]


def rand_big(rng):
    q = specs.rand_query(rng)
    sides = []
    for key in ("include_characters", "exclude_characters"):
        q.pop(key, None)
        count = lambda: rng.choice([rng.randrange(1, 20), rng.randrange(200, 600), rng.randrange(600, 9000), rng.choice(SIZES)])  # noqa: E731
        sides.append([[specs.rand_codepoint(rng), count(), rng.choice([1, 2, 2, 2, 3, 17])] for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))])
    return [q, *sides, rng.randrange(4)]


def check_big(ui, case):
    q, inc, exc, order = case
    q = {**q, "include_characters": long_text(inc, order), "exclude_characters": long_text(exc, order)}
    want = want_query(q)
    kind, got = outcome(ui.query, **query_kwargs(ui, q))
    if kind == "raised":
        return f"{case}: raised {type(got).__name__}: {str(got)[:200]}"
    bad = malformed(got) or diff(got, want)
    return f"{case}: {bad}" if bad else None


def rand_many(rng):
    """[function, form, names, times, the names after that, version]"""
    fn = rng.choice(["query", "exclude", "as_general_categories", "as_general_categories"])
    extra = MAJOR if fn == "as_general_categories" else ()
    names = specs.rand_names(rng, extra) or [rng.choice(CATS)]
    times = rng.choice(SIZES) // rng.choice([1, len(names)]) + rng.randrange(2)
    tail = specs.rand_names(rng, extra)[:4] + rng.choice([[], [], ["zz"]])
    form = rng.choice(["list", "tuple", "generator", "iterator", "map", "deque", "values", "oldseq", "oneshot", "chain", "reversed", "userlist", "subclass"])
    return [fn, form, names, times, tail, rng.choice(specs.VERSION_SPECS)]


def check_many(ui, case):
    fn, form, names, times, tail, version = case
    arg = specs.FORMS[form](names * times + tail)
    seen = [*dict.fromkeys(names * min(times, 1) + tail)]
    if fn == "as_general_categories":
        want = expand(version_of(version), seen)
        kind, got = outcome(ui.as_general_categories, arg, version_arg(ui, version))
    else:
        key = "categories" if fn == "query" else "exclude_categories"
        ok = all(n in FULL_NAMES for n in seen)
        want = want_query({"version": version, key: ["list", seen]}) if ok else None
        kind, got = outcome(ui.query, version=version_arg(ui, version), **{key: arg})
    if want is None:
        return None if kind == "raised" and isinstance(got, ValueError) else f"{case}: {str(got)[:200]}, expected ValueError"
    return None if kind == "ok" and got == want else f"{case}: {str(got)[:200]}, expected {str(want)[:200]}"


def classify_many(case):
    return case[3] * len(case[2]) + len(case[4]) > 255, ("rejected",) if "zz" in case[4] else ("accepted",)


def c15(s, ui):
    test = lambda q: check_query(ui, q)  # noqa: E731
    s.campaign("query", 6_000, specs.queries, test, classify_query)
    s.bulk("query in bulk", 500_000, specs.rand_query, test, classify_query)
    s.bulk("long texts", 800, rand_big, lambda c: check_big(ui, c),
           lambda c: (sum(b[1] for b in c[1] + c[2]) > 255, ("both texts",) if c[1] and c[2] else ()))

    def per_version(v):
        def cases():
            for kind in ("new", "attr", "list"):
                yield {"version": [kind, v]}
            for c in CATS:
                yield {"version": ["new", v], "categories": ["tuple", [c]]}
                yield {"version": ["attr", v], "exclude_categories": ["list", [c]]}
                yield {"version": ["list", v], "categories": ["list", [c]], "max_codepoint": 0xFF}
                yield {"version": ["new", v], "categories": ["list", [c]], "min_codepoint": 0x100}
            for g in MAJOR:
                yield {"version": ["new", v], "categories": ["set", list(GROUPS[g])]}
            for a, b in itertools.permutations(CATS, 2):
                yield {"version": ["new", v], "categories": ["list", [a, b, a]], "min_codepoint": 0x3000 - ord(b[0])}
        return cases

    s.sweep("every category of every version", [per_version(v) for v in VERSIONS], test)

    def low(lo):
        def cases():
            for hi in range(lo, 264):
                yield {"min_codepoint": lo, "max_codepoint": hi, "categories": ["list", ["Lu", "Nd", "Zs", "Cc"]]}
        return cases

    s.sweep("every window below 264", [low(lo) for lo in range(264)], test)

    def singles(k):
        # Every code point as an included and an excluded character, several at a time.
        def cases():
            for base in range(k * 0x2000, min((k + 1) * 0x2000, MAX + 1), 64):
                t = "".join(chr(c) for c in range(base, base + 64) if not 0xD800 <= c <= 0xDFFF)
                yield {"categories": ["list", []], "include_characters": t[1:9] + t[20:] + t[:3]}
                yield {"exclude_characters": t[:5] + t[9:] + t[:2]}
        return cases

    s.sweep("every code point as a character", [singles(k) for k in range(0x110000 // 0x2000)], test)

    edges = lambda v: sorted({x for a, _ in RUNS[v] for x in (a - 1, a) if x >= 0})  # noqa: E731

    def points(v):
        def cases():
            for x in edges(v):
                for c in {category_of(v, x), category_of(v, min(x + 1, MAX))}:
                    yield {"version": ["new", v], "categories": ["list", [c]], "min_codepoint": x, "max_codepoint": min(x + 1, MAX)}
        return cases

    s.sweep("every edge of the tables", [points(v) for v in VERSIONS], test)
    return {
        "rule": "Keyword arguments in every iterable and version form, present or left out. Non-trivial: at least one "
                "restriction or character; every enumerated case counts.",
        "assumptions": TRUST,
    }


# ---- C16: bad values ----

class Oops(Exception):
    """Raised by the objects below."""


class HardOops(BaseException):
    """Not even an Exception."""


ERRORS = {"Oops": Oops, "HardOops": HardOops, "ValueError": ValueError, "KeyError": KeyError,
          "OSError": OSError, "RecursionError": RecursionError, "StopAsyncIteration": StopAsyncIteration,
          "GeneratorExit": GeneratorExit, "IndexError": IndexError, "TypeError": TypeError, "AttributeError": AttributeError,
          "OverflowError": OverflowError, "MemoryError": MemoryError,
          "NotImplementedError": NotImplementedError, "EOFError": EOFError, "RuntimeError": RuntimeError}


class RaisesIter:
    def __init__(self, error):
        self.error = error

    def __iter__(self):
        raise self.error


class RaisesNext:
    def __init__(self, names, error):
        self.names, self.error = names, error

    def __iter__(self):
        yield from self.names
        raise self.error


class RaisesMid:
    """Raises once, then goes on as if nothing had happened."""

    def __init__(self, names, error):
        self.names, self.error = iter([*names, None, "Lu"]), error

    def __iter__(self):
        return self

    def __next__(self):
        name = next(self.names)
        if name is None:
            raise self.error
        return name


class RaisesItem:
    """The old sequence protocol, where only IndexError means the end."""

    def __init__(self, names, error):
        self.names, self.error = names, error

    def __getitem__(self, i):
        if i >= len(self.names):
            raise self.error
        return self.names[i]


class RaisesIndex:
    def __init__(self, error):
        self.error = error

    def __index__(self):
        raise self.error


class Indexed:
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n


class IterNotIterator:
    def __iter__(self):
        return 5


class LenLies(list):
    def __len__(self):
        raise Oops("len")


class HintLies:
    """An iterator whose length hint is absurd."""

    def __init__(self, names, hint):
        self.it, self.hint = iter(names), hint

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __length_hint__(self):
        return self.hint


def build(ui, spec):
    """(object, error instance it raises or None)."""
    kind, *rest = spec
    if kind == "int":
        return int(rest[0]), None
    if kind == "float":
        return float(rest[0]), None
    if kind in ("fraction", "decimal", "complex"):
        return {"fraction": fractions.Fraction, "decimal": decimal.Decimal, "complex": complex}[kind](rest[0]), None
    if kind == "str":
        return rest[0], None
    if kind == "strsub":
        return specs.Name(rest[0]), None
    if kind == "strenum":
        return enum.Enum("One", {"N": rest[0]}, type=str).N, None
    if kind == "surrogate":
        return rest[0] + chr(rest[1]) + rest[2], None
    if kind == "bytes":
        return bytes(rest[0], "latin-1"), None
    if kind == "bool":
        return rest[0], None
    if kind == "none":
        return None, None
    if kind == "object":
        return {"object": object(), "type": str, "function": len, "module": itertools, "ellipsis": ..., "complex": 2j,
                "notimplemented": NotImplemented, "memory": memoryview(b"Lu"), "range": range(3), "slice": slice(3),
                "version class": ui.UnicodeVersion, "exception": Oops("x"), "iternot": IterNotIterator()}[rest[0]], None
    if kind == "version":
        return ui.UnicodeVersion(rest[0]), None
    if kind == "names":
        return specs.FORMS[rest[0]](rest[1]), None
    if kind == "items":
        return [build(ui, x)[0] for x in rest[0]], None
    if kind == "index":
        return Indexed(rest[0]), None
    if kind == "hint":
        return HintLies(rest[0], rest[1]), None
    if kind == "lenlies":
        return LenLies(rest[0]), None
    error = ERRORS[rest[0]]("boom")
    if kind == "raises iter":
        return RaisesIter(error), error
    if kind == "raises next":
        return RaisesNext(rest[1], error), error
    if kind == "raises mid":
        return RaisesMid(rest[1], error), error
    if kind == "raises item":
        return RaisesItem(rest[1], error), error
    assert kind == "raises index"
    return RaisesIndex(error), error


STRS = ("str", "strsub", "strenum")
V, T, O = ValueError, TypeError, OverflowError
OK = "ok"


def expect_names(spec, allowed):
    """What a category argument may do: {OK} and/or exception types; "own" means the object's own error."""
    kind, *rest = spec
    if kind in ("names", "hint", "lenlies"):
        names = rest[1] if kind == "names" else rest[0]
        return {OK} if all(n in allowed for n in names) else {V}
    if kind == "items":
        out = set()
        for x in rest[0]:
            if x[0] in STRS:
                if x[1] not in allowed:
                    out.add(V)
            elif x[0] == "surrogate":
                out.add(V)
            else:
                out.add(T)
        return out or {OK}
    # PyO3 names the argument in a TypeError, so it is another instance.
    mine = {"own", T} if kind.startswith("raises") and ERRORS[rest[0]] is T else {"own"}
    if kind == "raises iter":
        return mine
    if kind == "raises item" and issubclass(ERRORS[rest[0]], (IndexError, StopIteration)):
        return {OK} if all(n in allowed for n in rest[1]) else {V}
    if kind in ("raises next", "raises mid", "raises item"):
        return mine if all(n in allowed for n in rest[1]) else mine | {V}
    if kind == "bytes":
        return {T, OK, V} if not rest[0] else {T}  # an empty iterable of anything
    return {T}


def expect_bound(spec):
    kind, *rest = spec
    if kind == "int":
        n = rest[0]
        return {OK} if 0 <= n <= MAX else {V} if 0 <= n < 1 << 32 else {V, O}
    if kind == "bool":
        return {OK, T}
    if kind == "index":
        n = rest[0]
        return {OK, T} if 0 <= n <= MAX else {V, O, T}
    if kind == "raises index":
        return {"own", T}
    return {T}


def expect_text(spec):
    kind = spec[0]
    return {OK} if kind in STRS else {V} if kind == "surrogate" else {T}


def expect_version(spec):
    return {OK} if spec[0] == "version" else {T}


PARAMS = {
    "categories": lambda x: {OK} if x[0] == "none" else expect_names(x, FULL_NAMES),
    "exclude_categories": lambda x: {OK} if x[0] == "none" else expect_names(x, FULL_NAMES),
    "min_codepoint": lambda x: {OK} if x[0] == "none" else expect_bound(x),
    "max_codepoint": lambda x: {OK} if x[0] == "none" else expect_bound(x),
    # None for the characters is not promised either way.
    "include_characters": lambda x: {OK, T} if x[0] == "none" else expect_text(x),
    "exclude_characters": lambda x: {OK, T} if x[0] == "none" else expect_text(x),
    "version": lambda x: {OK} if x[0] == "none" else expect_version(x),
}
CLASSES_AND_NAMES = set(FULL_NAMES) | set(MAJOR)
FUNCTIONS = {
    "query": PARAMS,
    "categories": {"version": PARAMS["version"]},
    "as_general_categories": {
        "categories": lambda x: expect_names(x, CLASSES_AND_NAMES),
        "version": PARAMS["version"],
    },
    "UnicodeVersion": {"value": lambda x: {OK} if x[0] in STRS and x[1] in VERSIONS else {V} if x[0] in (*STRS, "surrogate") else {T}},
}


def sound(ui):
    """A correct call still works."""
    q = {"categories": ["list", ["Lu"]], "max_codepoint": 300, "include_characters": "\u2603"}
    return check_query(ui, q)


def judge(case):
    """(exceptions it may raise, whether it must)."""
    fn, args = case["fn"], case["args"]
    expected = FUNCTIONS[fn]
    allowed, must_fail = set(), False
    for k, x in args.items():
        e = expected[k](x)
        allowed |= e - {OK}
        must_fail |= OK not in e
    if fn == "as_general_categories" and "categories" not in args:
        allowed, must_fail = {T}, True
    if fn == "UnicodeVersion" and "value" not in args:
        allowed, must_fail = {T}, True
    bounds = [args.get(k, ("none",)) for k in ("min_codepoint", "max_codepoint")]
    lo, hi = (int(b[1]) if b[0] in ("int", "index", "bool") else d for b, d in zip(bounds, (0, MAX)))
    if lo > hi:
        allowed.add(V)
        if all(b[0] in ("int", "none") for b in bounds):
            must_fail = True
    return allowed, must_fail


def meaning(case):
    """(result,) of a call whose arguments are all good and promised, or None."""
    fn, args = case["fn"], case["args"]
    q = {}
    for k, x in args.items():
        kind, *rest = x
        if kind == "none":
            q[k] = None
        elif kind in ("names", "hint", "lenlies"):
            q[k] = ["list", list(rest[1] if kind == "names" else rest[0])]
        elif kind == "items" and all(i[0] in STRS for i in rest[0]):
            q[k] = ["list", [i[1] for i in rest[0]]]
        elif kind == "version":
            q[k] = ["new", rest[0]]
        elif kind == "int" or kind in STRS:
            q[k] = rest[0]
        else:
            return None
    if fn == "query":
        if any(q.get(k, "") is None for k in ("include_characters", "exclude_characters")):
            return None
        return (want_query(q),)
    if fn == "categories":
        return (normalized(version_of(q.get("version"))),)
    if fn == "as_general_categories":
        return (expand(version_of(q.get("version")), q["categories"][1]),)
    return None


def check_bad(ui, case):
    fn, args = case["fn"], case["args"]
    built = {k: build(ui, x) for k, x in args.items()}
    own = [e for _, e in built.values() if e is not None]
    allowed, must_fail = judge(case)
    kind, got = outcome(getattr(ui, fn), **{k: o for k, (o, _) in built.items()})
    later = sound(ui)
    if later:
        return f"after {case}: {later}"
    if kind == "ok":
        if must_fail:
            return f"{case}: returned {str(got)[:200]}, expected an exception"
        want = meaning(case)
        if want is not None and got != want[0]:
            return f"{case}: returned {str(got)[:300]}, expected {str(want[0])[:300]}"
        return None
    if any(got is e for e in own):
        return None if "own" in allowed else f"{case}: raised {got!r}"
    if type(got).__module__ == "pyo3_runtime" or not isinstance(got, Exception):
        return f"{case}: raised {type(got).__name__}: {got}"
    kinds = tuple(e for e in allowed if e != "own")
    if isinstance(got, kinds):
        return None
    return f"{case}: raised {got!r}, expected {sorted(str(e) for e in allowed) or 'a result'}"


def classify_bad(case):
    expected = FUNCTIONS[case["fn"]]
    bad = [k for k, x in case["args"].items() if OK not in expected[k](x)]
    return bool(bad), [f"{case['fn']} bad {k}" for k in bad] or [f"{case['fn']} no bad value"]


def _mutated(name):
    return st.one_of(
        st.just(name + " "), st.just(" " + name), st.just(name.lower()), st.just(name.upper()), st.just(name[:1]),
        st.just(name + "\0"), st.just(name * 2), st.just(name[::-1]), st.just(""), st.just(name.swapcase()),
        st.just(name + "\n"), st.just(name[:1] + "\u0301" + name[1:]),
    )


def composed():
    """Names and literals of the source put together: "Lu ; Uppercase_Letter", "gc=Lu", "[Lu]"."""
    parts = st.one_of(st.sampled_from([*CATS, *VERSIONS, *MAJOR]), st.sampled_from(specs.mined()[1]), st.sampled_from(SEPARATORS),
                      st.sampled_from(list(FULL_NAMES.values())))
    return st.lists(parts, min_size=2, max_size=5).map("".join)


SEPARATORS = [" ", ";", " ; ", ",", ", ", "|", "&", "/", ":", "=", "==", "gc=", "General_Category=", "\\p{", "}", "[", "]", "(", ")", "#", " # ", "\n", "\r\n",
              "\t", "\0", ".", "-", "_", "'", '"', "V", "v", "Unicode ", "Is", "^", "!", "~", "*", "+", "\ufeff", "\u00a0", "\u200b"]


def long_strings():
    unit = st.one_of(st.sampled_from(["a", "\u00e9", "\u20ac", "\U0001f600", "{}", "%s", "\\", '"', "'", "\n", *CATS, *VERSIONS]),
                     st.characters(exclude_categories=["Cs"]))
    part = st.tuples(unit, st.sampled_from([1, 1, 2, 3, 5, 7, 11, 20, 60, 200])).map(lambda t: t[0] * t[1])
    return st.lists(part, min_size=1, max_size=5).map("".join)


def rand_bad_name(rng):
    """One bad name, mostly long, in one of the calls that take names."""
    if rng.randrange(3):
        pick = [lambda: rng.choice(CATS), lambda: rng.choice(VERSIONS), lambda: rng.choice(MAJOR), lambda: rng.choice(specs.mined()[1]),
                lambda: rng.choice(SEPARATORS), lambda: rng.choice(list(FULL_NAMES.values()))]
        text = "".join(rng.choice(pick)() for _ in range(rng.randrange(2, 6)))
    else:
        text = specs.rand_long(rng)
    fn, param = rng.choice([("query", "categories"), ("query", "exclude_categories"), ("as_general_categories", "categories"), ("UnicodeVersion", "value")])
    if fn == "UnicodeVersion":
        return {"fn": fn, "args": {param: ["str", text]}}
    return {"fn": fn, "args": {param: ["names", rng.choice(["list", "tuple", "generator", "iterator"]), rng.choice([[], ["Lu"]]) + [text]]}}


def bad_strings():
    return st.one_of(
        st.sampled_from(CATS).flatmap(_mutated),
        st.sampled_from(VERSIONS).flatmap(_mutated),
        st.sampled_from(list(FULL_NAMES.values())),
        st.sampled_from(specs.mined()[1]),
        st.text(max_size=4),
        long_strings(),
        composed(),
        st.text(alphabet="LMNPSZCaudlostcemnfkpi", min_size=1, max_size=3),
        st.sampled_from(CATS),
        st.sampled_from(MAJOR),
    )


def scalars():
    ints = st.one_of(
        st.integers(-3, 3), st.integers(0, MAX), st.sampled_from([MAX, MAX + 1, 2**31, 2**32 - 1, 2**32, 2**63, 2**64, -1, -2**31, -2**63]),
        st.integers(MAX + 1, 2**32 - 1), st.integers(2**32, 2**70), st.integers(-2**70, -1),
        st.integers(0, MAX).map(lambda n: n + 2**32), st.integers(0, MAX).map(lambda n: n - 2**32),
        st.integers(0, MAX).map(lambda n: n + 2**64),
    )
    return st.one_of(
        ints.map(lambda n: ["int", n]),
        st.sampled_from([1.0, 65.0, 0.5, -1.5, 1e300, float("inf"), float("-inf"), float("nan")]).map(lambda x: ["float", str(x)]),
        bad_strings().map(lambda x: ["str", x]),
        st.tuples(st.sampled_from(["strsub", "strenum"]), bad_strings()).map(list),
        st.tuples(st.text(max_size=2), st.integers(0xD800, 0xDFFF), st.text(max_size=2)).map(lambda t: ["surrogate", *t]),
        st.sampled_from(["", "Lu", "L", "\xff", "65"]).map(lambda x: ["bytes", x]),
        st.booleans().map(lambda x: ["bool", x]),
        st.sampled_from(["object", "type", "function", "module", "ellipsis", "complex", "notimplemented", "memory", "range",
                         "slice", "version class", "exception", "iternot"]).map(lambda x: ["object", x]),
        st.sampled_from(VERSIONS).map(lambda x: ["version", x]),
        st.just(["none"]),
        st.tuples(st.integers(-2, MAX + 2), st.just(0)).map(lambda t: ["index", t[0]]),
        st.sampled_from(sorted(ERRORS)).map(lambda e: ["raises index", e]),
    )


def iterables():
    names = st.lists(st.one_of(st.sampled_from(CATS), st.sampled_from(CATS), bad_strings()), max_size=5)
    good = st.lists(st.sampled_from(CATS), max_size=4)
    errors = st.sampled_from(sorted(ERRORS))
    return st.one_of(
        st.tuples(st.sampled_from(sorted(specs.FORMS)), names).map(lambda t: ["names", *t]),
        st.lists(st.one_of(st.sampled_from(CATS).map(lambda c: ["str", c]), scalars()), max_size=5).map(lambda x: ["items", x]),
        errors.map(lambda e: ["raises iter", e]),
        st.tuples(st.sampled_from(["raises next", "raises mid", "raises item"]), errors, good).map(list),
        st.tuples(names, st.sampled_from([0, 1, 2**20, 2**63 - 1])).map(lambda t: ["hint", *t]),
        names.map(lambda x: ["lenlies", x]),
    )


def anything():
    return st.one_of(scalars(), iterables())


GOOD = {
    "categories": lambda: st.one_of(st.just(["none"]), name_spec()),
    "exclude_categories": lambda: st.one_of(st.just(["none"]), name_spec()),
    "min_codepoint": lambda: st.one_of(st.just(["none"]), specs.codepoints().map(lambda n: ["int", n])),
    "max_codepoint": lambda: st.one_of(st.just(["none"]), specs.codepoints().map(lambda n: ["int", n])),
    "include_characters": lambda: specs.texts(3).map(lambda t: ["str", t]),
    "exclude_characters": lambda: specs.texts(3).map(lambda t: ["str", t]),
    "version": lambda: st.one_of(st.just(["none"]), st.sampled_from(VERSIONS).map(lambda v: ["version", v])),
    "value": lambda: st.sampled_from(VERSIONS).map(lambda v: ["str", v]),
}


def name_spec():
    return st.tuples(st.sampled_from(sorted(specs.FORMS)), st.lists(st.sampled_from(CATS), max_size=5)).map(lambda t: ["names", *t])


@st.composite
def bad_calls(draw):
    fn = draw(st.sampled_from(["query", "query", "query", "query", "categories", "as_general_categories", "as_general_categories", "UnicodeVersion"]))
    params = list(FUNCTIONS[fn])
    bad = draw(st.lists(st.sampled_from(params), min_size=0, max_size=2, unique=True))
    # Most often exactly one, so that the exception is determined.
    bad = bad[:1] if draw(st.integers(0, 3)) else bad
    args = {}
    for p in params:
        if p in bad:
            args[p] = draw(iterables() if p.endswith("categories") and draw(st.booleans()) else anything())
        elif draw(st.booleans()):
            args[p] = draw(GOOD[p]())
    return {"fn": fn, "args": args}


def check_shape(ui, case):
    """Positional and unknown arguments: [function, positional specs, extra keyword names]."""
    fn, positional, extra = case
    positional = [build(ui, x)[0] for x in positional]
    kind, got = outcome(getattr(ui, fn), *positional, **{k: None for k in extra})
    later = sound(ui)
    if later:
        return f"after {case}: {later}"
    if kind == "ok":
        return f"{case}: returned {str(got)[:200]}, expected TypeError"
    return None if type(got) is TypeError else f"{case}: raised {got!r}, expected TypeError"


@st.composite
def bad_shapes(draw):
    fn = draw(st.sampled_from(["query", "categories", "as_general_categories", "UnicodeVersion", "UnicodeVersion.latest"]))
    limit = {"query": 0, "categories": 1, "as_general_categories": 2, "UnicodeVersion": 1}.get(fn, 0)
    fn = "query" if fn == "UnicodeVersion.latest" else fn
    good = {"query": [], "categories": [["none"]], "as_general_categories": [["names", "list", ["Lu"]], ["none"]],
            "UnicodeVersion": [["str", "16.0.0"]]}[fn][:limit]
    if draw(st.booleans()):
        return [fn, good + draw(st.lists(anything(), min_size=1, max_size=3)), []]
    known = set(FUNCTIONS[fn])
    names = st.text(alphabet="abcdefghijklmnopqrstuvwxyz_", min_size=1, max_size=12).filter(lambda n: n not in known)
    close = st.sampled_from(["category", "Categories", "include_categories", "min_code_point", "min", "max", "characters", "exclude", "versions"])
    return [fn, good, draw(st.lists(st.one_of(names, close), min_size=1, max_size=2, unique=True))]


def check_forms(ui, case):
    q, fn = dict(case["q"]), case["fn"]
    if fn == "query":
        want = want_query(q)
    else:
        want = expand(version_of(q.get("version")), q["categories"][1])
    first = None
    for form in sorted(specs.FORMS):
        kw = {}
        for k, v in q.items():
            if k == "version":
                kw[k] = version_arg(ui, v)
            elif k.endswith("categories"):
                kw[k] = specs.FORMS[form](v[1])
            else:
                kw[k] = v
        left = {k: kw[k] for k in kw if k.endswith("categories") and form in ("list", "tuple", "set", "dict", "deque")}
        before = {k: type(o)(o) for k, o in left.items()}
        kind, got = outcome(getattr(ui, fn), **kw)
        if kind == "raised":
            return f"{fn} with {form} arguments {q}: raised {got!r}"
        if got != want:
            return f"{fn} with {form} arguments {q}: got {str(got)[:300]}, expected {str(want)[:300]}"
        if any(left[k] != before[k] for k in left):
            return f"{fn} with {form} arguments {q}: the argument was changed to {left}"
        first = got if first is None else first
    return None


@st.composite
def form_cases(draw):
    fn = draw(st.sampled_from(["query", "as_general_categories"]))
    names = st.lists(st.sampled_from(CATS), max_size=7)
    if fn == "as_general_categories":
        q = {"categories": ["list", draw(st.lists(st.sampled_from(list(CATS) + list(MAJOR)), max_size=7))]}
    else:
        q = {}
        which = draw(st.sampled_from(["categories", "exclude_categories", "both"]))
        if which != "exclude_categories":
            q["categories"] = ["list", draw(names)]
        if which != "categories":
            q["exclude_categories"] = ["list", draw(names)]
        q["max_codepoint"] = draw(st.sampled_from([127, 255, 0x1000, MAX]))
    q["version"] = draw(specs.versions)
    return {"fn": fn, "q": q}


def rand_forms(rng):
    version = rng.choice(specs.VERSION_SPECS)
    if rng.randrange(2):
        return {"fn": "as_general_categories", "q": {"categories": ["list", specs.rand_names(rng, MAJOR)], "version": version}}
    q = {"version": version, "max_codepoint": rng.choice([127, 255, 0x1000])}
    k = rng.randrange(3)
    if k != 0:
        q["categories"] = ["list", specs.rand_names(rng)]
    if k != 1:
        q["exclude_categories"] = ["list", specs.rand_names(rng)]
    return {"fn": "query", "q": q}


def every_kind(fn, param):
    numbers = {0, 1, -1, MAX, MAX + 1, MAX + 2, 0x120000, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 65, 2**63 - 1, 2**63,
               2**64 - 1, 2**64, 2**64 + 65, 10**30, -65, -2**31, -2**32 + 65, -2**63, -2**64}
    numbers |= {n + d for n in specs.mined()[0] for d in (-1, 0, 1)}
    values = [["int", n] for n in sorted(numbers)]
    values += [["index", n] for n in (-1, 0, 65, MAX, MAX + 1, 2**32)]
    values += [[k, n] for k in ("fraction", "decimal", "complex") for n in (0, 1, 65)]
    values += [["float", x] for x in ("0.0", "65.0", "0.5", "inf", "nan")]
    strings = {"", "Lu", "lu", "LU", "L", "C", "Cn", "LC", "L&", "Any", "Uppercase_Letter", "16.0.0", "16.0", "16", "V16_0_0", "latest", "None", "65", "\0"}
    values += [["str", x] for x in sorted(strings | set(specs.mined()[1]))]
    values += [[k, x] for k in ("strsub", "strenum") for x in ("", "Lu", "L", "LC", "LN", "16.0.0", "zz", "LuNd")]
    values += [["surrogate", "", 0xD800, ""], ["surrogate", "Lu", 0xDFFF, ""], ["surrogate", "", 0xDC00, "a"]]
    values += [["bytes", x] for x in ("", "Lu", "16.0.0")] + [["bool", True], ["bool", False], ["none"]]
    values += [["object", x] for x in ("object", "type", "function", "module", "ellipsis", "complex", "notimplemented", "memory",
                                       "range", "slice", "version class", "exception", "iternot")]
    values += [["version", v] for v in VERSIONS]
    for e in sorted(ERRORS):
        values += [["raises iter", e], ["raises index", e]]
        values += [[k, e, names] for k in ("raises next", "raises mid", "raises item") for names in ([], ["Lu"], ["Lu", "Nd", "Zs"], list(CATS))]
    lists = [[], ["Lu"], ["Lu", "Lu", "Cn"], ["Lu", "zz"], ["zz", "Lu"], ["L"], [""], ["Lu "], list(CATS), ["LuLu"]]
    values += [["names", form, names] for form in sorted(specs.FORMS) for names in lists]
    values += [["hint", names, h] for names in lists for h in (0, 2**20, 2**63 - 1)] + [["lenlies", names] for names in lists]
    for at in (0, 1, 2):
        for odd in (["none"], ["int", 1], ["float", "1.0"], ["bytes", "Lu"], ["object", "object"], ["version", "16.0.0"],
                    ["items", [["str", "Lu"]]], ["surrogate", "L", 0xD800, ""], ["str", "zz"], ["bool", True],
                    ["strsub", "Nd"], ["strsub", "zz"], ["strenum", "Nd"], ["strsub", "Lu"]):
            items = [["str", "Lu"], ["str", "Ll"]]
            values.append(["items", items[:at] + [odd] + items[at:]])

    def cases():
        for v in values:
            yield {"fn": fn, "args": {param: v}}
            if fn == "query":
                # Refused also where the answer could not depend on it.
                yield {"fn": fn, "args": {"categories": ["names", "list", []], param: v}}
                yield {"fn": fn, "args": {"include_characters": ["str", "a"], "max_codepoint": ["int", 0], param: v}}
            elif fn == "as_general_categories" and param == "version":
                yield {"fn": fn, "args": {"categories": ["names", "list", []], param: v}}
                yield {"fn": fn, "args": {"categories": ["names", "list", ["L", "Nd"]], param: v}}
    return cases


def c16(s, ui):
    s.campaign("bad calls", 12_000, bad_calls, lambda c: check_bad(ui, c), classify_bad)
    s.campaign("bad shapes", 1_500, bad_shapes, lambda c: check_shape(ui, c), lambda c: (True, (c[0],)))
    s.campaign("iterable forms", 1_500, form_cases, lambda c: check_forms(ui, c),
               lambda c: (any(len(c["q"].get(k, [0, []])[1]) > 1 for k in ("categories", "exclude_categories")), (c["fn"],)))

    s.bulk("iterable forms in bulk", 40_000, rand_forms, lambda c: check_forms(ui, c),
           lambda c: (any(len(c["q"].get(k, [0, []])[1]) > 1 for k in ("categories", "exclude_categories")), (c["fn"],)))
    s.bulk("long lists of names", 1_200, rand_many, lambda c: check_many(ui, c), classify_many)
    s.bulk("long names", 60_000, rand_bad_name, lambda c: check_bad(ui, c), classify_bad)
    s.sweep("every kind of value in every parameter", [every_kind(fn, p) for fn in FUNCTIONS for p in FUNCTIONS[fn]],
            lambda c: check_bad(ui, c), classify_bad)

    import string
    alphabet = string.ascii_letters + string.digits + " _.\0&"

    def short(a):
        def cases():
            for b in ["", *alphabet]:
                for fn in ("query", "as_general_categories"):
                    yield {"fn": fn, "args": {"categories": ["names", "list", [a + b]]}}
                yield {"fn": "query", "args": {"exclude_categories": ["names", "tuple", ["Lu", a + b]]}}
        return cases

    s.sweep("every short name", [short(a) for a in ["", *alphabet]], lambda c: check_bad(ui, c),
            lambda c: (any(n not in CLASSES_AND_NAMES for n in next(iter(c["args"].values()))[2]), ()))
    return {
        "rule": "Calls with values of every kind in each parameter, wrong shapes of calls, and each iterable form. "
                "Non-trivial: some value must be refused, or an argument with several names in every form.",
        "assumptions": TRUST,
    }


# ---- C17 ----

def check_expand(ui, case):
    form, names, version = case
    want = expand(version_of(version), names)
    kw = {} if version is None and len(names) % 2 else {"version": version_arg(ui, version)}
    kind, got = outcome(ui.as_general_categories, specs.FORMS[form](names), **kw)
    if want is None:
        if kind == "raised" and isinstance(got, ValueError):
            return None
        return f"{case}: {got!r}, expected ValueError"
    if kind == "raised" or type(got) is not tuple or got != want:
        return f"{case}: {got!r}, expected {want}"
    if any(type(n) is not str for n in got):
        return f"{case}: not all strings: {got!r}"
    return None


def check_categories(ui, version):
    want = normalized(version_of(version))
    for kw in ({"version": version_arg(ui, version)}, *([{}] if version is None else [])):
        kind, got = outcome(ui.categories, **kw)
        if kind == "raised" or type(got) is not tuple or got != want or any(type(n) is not str for n in got):
            return f"categories({version}): {got!r}, expected {want}"
    kind, got = outcome(ui.categories, version_arg(ui, version))
    if kind == "raised" or got != want:
        return f"categories({version}) positionally: {got!r}, expected {want}"
    return None


def check_version_string(ui, text):
    kind, got = outcome(ui.UnicodeVersion, text)
    if text in VERSIONS:
        if kind == "raised":
            return f"UnicodeVersion({text!r}) raised {got!r}"
        if str(got) != text or f"{got}" != text:
            return f"UnicodeVersion({text!r}) prints as {str(got)!r}"
        again = outcome(eval, repr(got), {"UnicodeVersion": ui.UnicodeVersion})
        if again[0] == "raised" or again[1] != got:
            return f"repr {got!r} does not evaluate to the same version"
        return None
    if kind == "raised" and isinstance(got, ValueError):
        return None
    return f"UnicodeVersion({text!r}): {got!r}, expected ValueError"


def check_version_pair(ui, case):
    a, b = case
    x, y = version_arg(ui, a), version_arg(ui, b)
    same = version_of(a) == version_of(b)
    if (x == y) is not same or (x != y) is same:
        return f"{a} == {b}: {x == y}, != {x != y}, expected equal: {same}"
    if type(x) is not ui.UnicodeVersion:
        return f"{a} is a {type(x)}"
    if x == version_of(a) or x == None or (x == 1) or not x != version_of(a):  # noqa: E711
        return f"{a} equals something that is not a version"
    if same != (str(x) == str(y)):
        return f"{a} and {b} print as {x} and {y}"
    return None


def check_listing(ui, _):
    if type(ui.available_versions) is not tuple:
        return f"available_versions is a {type(ui.available_versions).__name__}"
    listed = tuple(str(v) for v in ui.available_versions)
    if listed != VERSIONS:
        return f"available_versions {listed}, expected {VERSIONS}"
    if ui.available_versions[-1] != ui.UnicodeVersion.latest():
        return "the last available version is not the latest"
    if str(ui.UnicodeVersion.latest()) != LATEST:
        return f"latest is {ui.UnicodeVersion.latest()}"
    attrs = sorted(a for a in dir(ui.UnicodeVersion) if a.startswith("V"))
    if attrs != sorted("V" + v.replace(".", "_") for v in VERSIONS):
        return f"version attributes {attrs}"
    return None


def version_strings():
    near = st.sampled_from(VERSIONS).flatmap(lambda v: st.one_of(
        st.sampled_from([v + ".0", v[:-2], "v" + v, " " + v, v + " ", v + "\n", v.replace(".", "_"), "0" + v, v.replace("0", "00", 1),
                         v[::-1], v + "\0", "V" + v.replace(".", "_"), v.replace(".", ","), v.replace("1", "\u0661"), v[1:]]),
        st.tuples(st.integers(0, len(v) - 1), st.sampled_from("0123456789. ")).map(lambda t: v[: t[0]] + t[1] + v[t[0] + 1 :]),
        st.tuples(st.integers(0, len(v)), st.sampled_from("0123456789. ")).map(lambda t: v[: t[0]] + t[1] + v[t[0] :]),
        st.integers(0, len(v) - 1).map(lambda i: v[:i] + v[i + 1 :]),
    ))
    made = st.tuples(st.integers(0, 20), st.integers(0, 3), st.integers(0, 2)).map(lambda t: "%d.%d.%d" % t)
    return st.one_of(near, made, st.sampled_from(VERSIONS), st.text(max_size=8), st.text(alphabet="0123456789.", max_size=7),
                     st.sampled_from(specs.mined()[1]))


VERSION_SPECS = specs.VERSION_SPECS


def c17(s, ui):
    pool = list(CATS) + list(MAJOR)
    one = st.one_of(st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(pool),
                    st.sampled_from(pool), st.sampled_from(pool), bad_strings())
    lists = lambda: st.tuples(st.sampled_from(sorted(specs.FORMS)), st.lists(one, max_size=10), specs.versions).map(list)  # noqa: E731
    s.campaign("expansion", 4_000, lists, lambda c: check_expand(ui, c),
               lambda c: (len(set(c[1])) > 1, ("rejected",) if expand(LATEST, c[1]) is None else ("accepted",)))
    def rand_list(rng):
        names = specs.rand_names(rng, MAJOR)
        if rng.randrange(4) == 0:
            odd = rng.choice([rng.choice(specs.mined()[1]), rng.choice(pool).lower(), rng.choice(pool) + rng.choice("abc &0"), rng.choice(pool).upper(), "",
                              specs.rand_long(rng)])
            names.insert(rng.randrange(len(names) + 1), odd)
        return [rng.choice(sorted(specs.FORMS)), names, rng.choice(specs.VERSION_SPECS)]

    s.bulk("expansion in bulk", 300_000, rand_list, lambda c: check_expand(ui, c),
           lambda c: (len(set(c[1])) > 1, ("rejected",) if expand(LATEST, c[1]) is None else ("accepted",)))
    s.bulk("long lists of names", 1_200, rand_many, lambda c: check_many(ui, c), classify_many)
    s.campaign("version strings", 12_000, version_strings, lambda t: check_version_string(ui, t),
               lambda t: (bool(t), ("accepted",) if t in VERSIONS else ("rejected",)))
    s.sweep("category order", VERSION_SPECS, lambda v: check_categories(ui, v))
    s.sweep("version pairs", [[a, b] for a in VERSION_SPECS[1:] for b in VERSION_SPECS[1:]], lambda c: check_version_pair(ui, c))
    s.sweep("listing", [None], lambda c: check_listing(ui, c))
    s.sweep("every version number", ["%d.%d.%d" % t for t in itertools.product(range(22), range(5), range(4))]
            + ["%d.%d" % t for t in itertools.product(range(22), range(5))] + [str(i) for i in range(30)],
            lambda t: check_version_string(ui, t))

    def subsets(v):
        def cases():
            for n in range(1 << len(MAJOR)):
                yield ["list", [g for i, g in enumerate(MAJOR) if n >> i & 1], v]
            for a in pool:
                for b in pool:
                    yield ["list", [a, b], v]
        return cases

    s.sweep("classes and pairs", [subsets(v) for v in VERSION_SPECS[:2] + [["new", v] for v in VERSIONS]], lambda c: check_expand(ui, c))
    return {
        "rule": "Lists of names and classes in every form, version strings and their near misses; all versions, pairs of "
                "versions, pairs of names and sets of classes. Non-trivial: two different entries, or a non-empty string.",
        "assumptions": TRUST,
    }
