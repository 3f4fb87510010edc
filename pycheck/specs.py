"""Argument specs (JSON) and the Python objects they stand for, plus strategies for them."""
import collections
import enum
import itertools
import os
import re
import time
import types
from functools import lru_cache
from pathlib import Path

from hypothesis import strategies as st

from model import BY_CAT, CATS, GROUPS, LATEST, MAJOR, MAX, RUNS, VERSIONS

REPO = Path(os.environ.get("UVH_REPO", "/repo"))


class Name(str):
    """A str subclass is a string too."""


class OldSequence:
    """Iterable through __getitem__ only."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


class OneShot:
    """Yields its items to the first taker and nothing afterwards."""

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        items, self.items = self.items, []
        return iter(items)


def reentrant(items):
    """Uses the library while the library uses it."""
    import unicode_intervals as ui

    for i, n in enumerate(items):
        version = VERSIONS[i % len(VERSIONS)]
        c = n if n in BY_CAT[version] else "Zl"
        nested = ui.query(version=ui.UnicodeVersion(version), categories=(x for x in [c])) == tuple(BY_CAT[version][c])
        known = len(ui.as_general_categories((x for x in [c, "L", c]))) == 5 + (c not in GROUPS["L"]) and len(ui.categories(ui.UnicodeVersion(version))) == 30
        try:
            ui.query(exclude_categories=iter([c, "?"]))
            refused = False
        except ValueError:
            refused = True
        yield n if nested and known and refused else "a call made from the iterable went wrong"


def yielding(items):
    """Lets other threads run between items."""
    for n in items:
        time.sleep(0)
        yield n
    time.sleep(0)


FORMS = {
    "reentrant": reentrant,
    "yielding": yielding,
    "enum": lambda x: list(enum.Enum("Names", {f"N{i}_{j}": n for j, (i, n) in enumerate(dict.fromkeys((0, n) for n in x))}, type=str)) if x else [],
    "chain": lambda x: itertools.chain.from_iterable([n] for n in x),
    "mapping proxy": lambda x: types.MappingProxyType(dict.fromkeys(x)),
    "list": list,
    "tuple": tuple,
    "set": set,
    "frozenset": frozenset,
    "generator": lambda x: (n for n in x),
    "iterator": lambda x: iter(list(x)),
    "dict": dict.fromkeys,
    "keys": lambda x: dict.fromkeys(x).keys(),
    "values": lambda x: dict(enumerate(x)).values(),
    "deque": collections.deque,
    "map": lambda x: map(str, x),
    "filter": lambda x: filter(lambda n: True, list(x)),
    "oldseq": OldSequence,
    "oneshot": OneShot,
    "subclass": lambda x: [Name(n) for n in x],
    "reversed": lambda x: reversed(list(x)[::-1]),
    "counter": collections.Counter,
    "userlist": collections.UserList,
}


def names_arg(spec):
    """[form, names] or None."""
    return None if spec is None else FORMS[spec[0]](spec[1])


def version_arg(ui, spec):
    """None, ["new", number], ["attr", number], ["list", number] or ["latest"]."""
    if spec is None:
        return None
    kind = spec[0]
    if kind == "latest":
        return ui.UnicodeVersion.latest()
    if kind == "new":
        return ui.UnicodeVersion(spec[1])
    if kind == "attr":
        return getattr(ui.UnicodeVersion, "V" + spec[1].replace(".", "_"))
    if kind != "list":
        raise KeyError(kind)
    return ui.available_versions[VERSIONS.index(spec[1])]


def version_of(spec):
    return LATEST if spec is None or spec[0] == "latest" else spec[1]


versions = st.one_of(
    st.none(),
    st.sampled_from([[k, v] for k in ("new", "attr", "list") for v in VERSIONS]),
    st.sampled_from([[k, v] for k in ("new", "attr", "list") for v in VERSIONS]),
    st.just(["latest"]),
)


@lru_cache(maxsize=1)
def mined():
    """Numbers and strings in the sources, to aim at."""
    numbers, strings = set(), set()
    for d in ("crates/unicode-intervals/src", "crates/unicode-intervals-py/src"):
        for p in sorted((REPO / d).glob("*.rs")):
            text = p.read_text(errors="replace").split("#[cfg(test)]\nmod ")[0]
            text = re.sub(r"//.*", "", text)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)", text):
                try:
                    n = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                if n < 1 << 33:
                    numbers.add(n)
            strings.update(s for s in re.findall(r'"((?:[^"\\]|\\.)*)"', text) if len(s) < 40)
    return sorted(numbers) or [0], sorted(strings) or [""]


_EDGES = sorted({x for v in VERSIONS for s, _ in RUNS[v] for x in (s - 1, s) if x >= 0} | {MAX})
_SPECIAL = [0, 1, 47, 48, 64, 65, 127, 128, 254, 255, 256, 257, 0x7FF, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD,
            0xFFFE, 0xFFFF, 0x10000, 0xE0000, 0xF0000, 0x10FFFD, 0x10FFFE, MAX]


def codepoints():
    small = [n for n in mined()[0] if n <= MAX]
    return st.one_of(
        st.integers(0, 300),
        st.sampled_from(_EDGES),
        st.sampled_from(_SPECIAL),
        st.integers(0, MAX),
        st.sampled_from(small),
    )


def texts(max_size=8):
    one = codepoints().filter(lambda c: not 0xD800 <= c <= 0xDFFF)
    run = st.tuples(one, st.sampled_from([1, 1, 1, 1, 2, 3, 9, 40])).map(
        lambda t: "".join(chr(c) for c in range(t[0], min(t[0] + t[1], MAX + 1)) if not 0xD800 <= c <= 0xDFFF)
    )
    return st.one_of(st.just(""), st.lists(run, max_size=max_size).map("".join))


def name_lists(extra=()):
    pool = list(CATS) + list(extra)
    some = st.lists(st.sampled_from(pool), max_size=6)
    group = st.sampled_from(MAJOR).map(lambda g: list(GROUPS[g]))
    most = st.lists(st.sampled_from(pool), min_size=20, max_size=40)
    without = st.lists(st.sampled_from(CATS), max_size=3).map(lambda d: [c for c in CATS if c not in d])
    return st.one_of(some, st.sampled_from(pool).map(lambda c: [c]), some, group, most, without, st.just([]))


def name_args(extra=()):
    return st.one_of(st.none(), st.tuples(st.sampled_from(sorted(FORMS)), name_lists(extra)).map(list))


@st.composite
def queries(draw):
    """Valid query calls. A key that is absent means the argument is left out."""
    q = {}
    version = draw(versions)
    if version is not None or draw(st.booleans()):
        q["version"] = version
    for key in ("categories", "exclude_categories"):
        arg = draw(name_args())
        if arg is not None or draw(st.booleans()):
            q[key] = arg
    kind = draw(st.sampled_from(["none", "min", "max", "both", "both", "narrow", "low", "point"]))
    a, b = draw(codepoints()), draw(codepoints())
    if kind == "min":
        q["min_codepoint"] = a
    elif kind == "max":
        q["max_codepoint"] = a
    elif kind == "both":
        q["min_codepoint"], q["max_codepoint"] = min(a, b), max(a, b)
    elif kind == "narrow":
        q["min_codepoint"], q["max_codepoint"] = a, min(MAX, a + b % 500)
    elif kind == "low":
        q["min_codepoint"], q["max_codepoint"] = min(a % 260, b % 260), max(a % 260, b % 260)
    elif kind == "point":
        q["min_codepoint"] = q["max_codepoint"] = a
    elif draw(st.booleans()):
        q["min_codepoint"] = q["max_codepoint"] = None
    for key in ("include_characters", "exclude_characters"):
        t = draw(texts(4))
        if key == "exclude_characters" and q.get("include_characters") and draw(st.booleans()):
            t += draw(st.sampled_from(q["include_characters"]))
        if t or draw(st.booleans()):
            q[key] = t
    return q


# ---- The same kinds of cases from a plain random source, for volume ----

VERSION_SPECS = [None, ["latest"]] + [[k, v] for k in ("new", "attr", "list") for v in VERSIONS]


def rand_codepoint(rng):
    k = rng.randrange(8)
    if k < 3:
        return rng.randrange(301)
    if k < 5:
        return rng.choice(_EDGES)
    if k == 5:
        return rng.choice(_SPECIAL)
    if k == 6:
        return rng.choice([n for n in mined()[0] if n <= MAX])
    return rng.randrange(MAX + 1)


def rand_text(rng, most=4):
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, most, rng.randrange(12)])):
        at = rand_codepoint(rng)
        step = rng.choice([1, 1, 1, -1, 2])
        out += range(at, at + step * rng.choice([1, 1, 1, 2, 3, 9, 40]), step)
    out = [c for c in out if 0 <= c <= MAX and not 0xD800 <= c <= 0xDFFF]
    if rng.randrange(4) == 0:
        rng.shuffle(out)
    return "".join(map(chr, out))


def rand_names(rng, extra=()):
    pool = [*CATS, *extra]
    k = rng.randrange(10)
    if k < 3:
        return [rng.choice(pool)]
    if k < 6:
        return rng.choices(pool, k=rng.randrange(2, 7))
    if k == 6:
        return list(GROUPS[rng.choice(MAJOR)])
    if k == 7:
        return rng.sample(CATS, rng.randrange(20, 31))
    if k == 8:
        drop = rng.choices(CATS, k=rng.randrange(1, 4))
        return [c for c in CATS if c not in drop]
    if extra and rng.randrange(2):
        # Every class, or everything there is.
        return rng.sample(*rng.choice([(list(extra), len(extra)), (pool, len(pool)), (list(extra), rng.randrange(1, len(extra) + 1))]))
    return []


def rand_long(rng):
    """A long string with characters of every encoded length at every offset."""
    units = ["a", "\u00e9", "\u20ac", "\U0001f600", "{}", "%s", "\\", '"', "'", "\n", rng.choice(CATS), rng.choice(VERSIONS), chr(rng.randrange(0xD800))]
    return "".join(rng.choice(units) * rng.choice([1, 1, 2, 3, rng.randrange(1, 24), rng.randrange(1, 200)]) for _ in range(rng.randrange(1, 6)))


_FORM_NAMES = sorted(FORMS)


def rand_query(rng):
    q = {}
    if rng.randrange(4):
        q["version"] = rng.choice(VERSION_SPECS)
    for key, skip in (("categories", 5), ("exclude_categories", 2)):
        if rng.randrange(skip):
            q[key] = rng.choice([None, *[[rng.choice(_FORM_NAMES), rand_names(rng)]] * 5])
    kind = rng.randrange(9)
    a, b = rand_codepoint(rng), rand_codepoint(rng)
    lo, hi = None, None
    if kind == 0:
        lo = a
    elif kind == 1:
        hi = a
    elif kind < 4:
        lo, hi = min(a, b), max(a, b)
    elif kind == 4:
        lo, hi = a, min(MAX, a + rng.randrange(500))
    elif kind == 5:
        lo, hi = min(a % 260, b % 260), max(a % 260, b % 260)
    elif kind == 6:
        lo = hi = a
    for key, value in (("min_codepoint", lo), ("max_codepoint", hi)):
        if value is not None or rng.randrange(4) == 0:
            q[key] = value
    if rng.randrange(2):
        q["include_characters"] = rand_text(rng)
    if rng.randrange(2):
        q["exclude_characters"] = rand_text(rng) + (rng.choice(q["include_characters"]) if q.get("include_characters") and rng.randrange(2) else "")
    return q


def query_kwargs(ui, q):
    kw = dict(q)
    if "version" in kw:
        kw["version"] = version_arg(ui, kw["version"])
    for key in ("categories", "exclude_categories"):
        if key in kw:
            kw[key] = names_arg(kw[key])
    return kw


def edge_lists(version):
    return BY_CAT[version]
