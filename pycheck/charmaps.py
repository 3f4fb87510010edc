"""C18: against Hypothesis's charmap and the interpreter's own Unicode database."""
import itertools
import sys
import unicodedata

from hypothesis.internal import charmap

import specs
from calls import classify_query, diff, valid_query
from engine import outcome
from model import CATS, GROUPS, MAJOR, MAX, VERSIONS
from specs import names_arg

OWN = unicodedata.unidata_version


def settle():
    """Categories with equally many intervals are in abbreviation order once Hypothesis's cache exists."""
    charmap._charmap = dict(sorted(charmap.charmap().items()))
    charmap._categories = None
    charmap.category_index_cache.clear()
    charmap.category_index_cache[frozenset()] = ()
    charmap.limited_category_index_cache.clear()


def theirs(q):
    inc, exc = q.get("categories"), q.get("exclude_categories")
    cats = None if inc is None else tuple(inc[1])
    if exc is not None and exc[1]:
        # What Hypothesis's characters() does with them.
        cats = tuple(c for c in (charmap.categories() if cats is None else cats) if c not in exc[1])
    if len(charmap.limited_category_index_cache) > 2000:
        settle()
    return charmap.query(
        categories=cats,
        min_codepoint=q.get("min_codepoint"),
        max_codepoint=q.get("max_codepoint"),
        include_characters=q.get("include_characters", ""),
        exclude_characters=q.get("exclude_characters", ""),
    ).intervals


def check_query(ui, version, q):
    valid_query(q)
    want = theirs(q)
    kw = {k: names_arg(v) if k.endswith("categories") else v for k, v in q.items() if k != "version"}
    kind, got = outcome(ui.query, version=version, **kw)
    if kind == "raised":
        return f"query({q}) raised {got!r}"
    if got == want:
        return None
    return f"query({q}): {diff(got, want)}"


def check_expand(ui, version, names):
    try:
        want = charmap.as_general_categories(names)
    except Exception:
        want = None
    kind, got = outcome(ui.as_general_categories, names, version)
    if want is None:
        return None if kind == "raised" and isinstance(got, ValueError) else f"{names}: {got!r}, Hypothesis refuses it"
    return None if kind == "ok" and got == want else f"{names}: {got!r}, Hypothesis gives {want}"


def own_database():
    out = {c: [] for c in CATS}
    for cat, run in itertools.groupby(range(MAX + 1), key=lambda cp: unicodedata.category(chr(cp))):
        run = list(run)
        out[cat].append((run[0], run[-1]))
    return {c: tuple(x) for c, x in out.items()}


def c18(s, ui):
    if OWN not in VERSIONS:
        raise RuntimeError(f"the interpreter has Unicode {OWN}, which is not bundled")
    if sys.maxunicode != MAX:
        raise RuntimeError("a narrow interpreter")
    settle()
    version = ui.UnicodeVersion(OWN)
    test = lambda q: check_query(ui, version, q)  # noqa: E731
    s.campaign("query", 3_000, specs.queries, test, classify_query)
    s.bulk("query in bulk", 120_000, specs.rand_query, test, classify_query)
    db = own_database()

    def per_category(c):
        got = outcome(ui.query, categories=[c], version=version)
        return None if got == ("ok", db[c]) else f"{c}: differs from unicodedata: {diff(got[1], db[c]) if got[0] == 'ok' else got}"

    s.sweep("every category against unicodedata", list(CATS), per_category)

    def order(_):
        kind, got = outcome(ui.categories, version)
        return None if kind == "ok" and got == charmap.categories() else f"{got!r}, Hypothesis has {charmap.categories()}"

    s.sweep("category order", [None], order)
    pool = [*CATS, *MAJOR]

    def lists(k):
        def cases():
            if k == 0:
                for n in range(1 << len(MAJOR)):
                    yield [g for i, g in enumerate(MAJOR) if n >> i & 1]
            for b in [*pool, "LC", "lu", "Any", ""]:
                yield [pool[k], b]
                yield [b, pool[k], b]
        return cases

    s.sweep("classes and pairs", [lists(k) for k in range(len(pool))], lambda n: check_expand(ui, version, n))
    s.bulk("expansion", 60_000, lambda rng: specs.rand_names(rng, MAJOR), lambda n: check_expand(ui, version, n),
           lambda n: (len(set(n)) > 1, ()))

    def pairs(a):
        def cases():
            for b in CATS:
                for lo, hi in ((None, None), (0, 255), (256, None), (0x3000, 0xFFFF)):
                    yield {"categories": ["list", [a, b]], "min_codepoint": lo, "max_codepoint": hi}
                yield {"exclude_categories": ["list", [a, b]]}
                yield {"categories": ["list", list(GROUPS[a[0]])], "exclude_categories": ["list", [b]], "min_codepoint": 0x20}
        return cases

    s.sweep("pairs of categories", [pairs(a) for a in CATS], test)
    return {
        "rule": "Arguments both libraries accept, excluded categories given to Hypothesis as a shorter list. Non-trivial: at "
                "least one restriction or character, or two different names.",
        "assumptions": [f"Hypothesis's charmap and unicodedata ({OWN}) of the installed interpreter",
                        "categories with equally many intervals stand in abbreviation order, as Hypothesis has them once its cache exists"],
    }
