"""The reference semantics in Python, from refdata/gc.txt. Nothing here touches the code under test."""
from bisect import bisect_right
from functools import lru_cache
from pathlib import Path

MAX = 0x10FFFF
FULL_NAMES = {
    "Pe": "Close_Punctuation", "Pc": "Connector_Punctuation", "Cc": "Control", "Sc": "Currency_Symbol",
    "Pd": "Dash_Punctuation", "Nd": "Decimal_Number", "Me": "Enclosing_Mark", "Pf": "Final_Punctuation",
    "Cf": "Format", "Pi": "Initial_Punctuation", "Nl": "Letter_Number", "Zl": "Line_Separator",
    "Ll": "Lowercase_Letter", "Sm": "Math_Symbol", "Lm": "Modifier_Letter", "Sk": "Modifier_Symbol",
    "Mn": "Nonspacing_Mark", "Ps": "Open_Punctuation", "Lo": "Other_Letter", "No": "Other_Number",
    "Po": "Other_Punctuation", "So": "Other_Symbol", "Zp": "Paragraph_Separator", "Co": "Private_Use",
    "Zs": "Space_Separator", "Mc": "Spacing_Mark", "Cs": "Surrogate", "Lt": "Titlecase_Letter",
    "Cn": "Unassigned", "Lu": "Uppercase_Letter",
}
CATS = tuple(sorted(FULL_NAMES))
MAJOR = ("L", "M", "N", "P", "S", "Z", "C")
GROUPS = {g: tuple(c for c in CATS if c[0] == g) for g in MAJOR}


def _load():
    versions = {}
    current = None
    for line in (Path(__file__).parent.parent / "refdata" / "gc.txt").read_text().splitlines():
        if line.startswith("#") or not line:
            continue
        if line.startswith("@"):
            current = versions.setdefault(line[1:], [])
            continue
        start, cat = line.split()
        current.append((int(start, 16), cat))
    return versions


RUNS = _load()
VERSIONS = tuple(RUNS)
LATEST = VERSIONS[-1]
assert len(VERSIONS) == 11 and LATEST == "17.0.0"
STARTS = {v: [s for s, _ in runs] for v, runs in RUNS.items()}
BY_CAT = {v: {c: [] for c in CATS} for v in VERSIONS}
for _v, _runs in RUNS.items():
    for (_s, _c), (_e, _) in zip(_runs, _runs[1:] + [(MAX + 1, "")]):
        BY_CAT[_v][_c].append((_s, _e - 1))


def category(version, cp):
    return RUNS[version][bisect_right(STARTS[version], cp) - 1][1]


def normalized(version):
    d = BY_CAT[version]
    head = sorted((c for c in CATS if c not in ("Cc", "Cs")), key=lambda c: (len(d[c]), c))
    return (*head, "Cc", "Cs")


def canon(items):
    out = []
    for lo, hi in sorted(items):
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1][1] = hi
        else:
            out.append([lo, hi])
    return [tuple(x) for x in out]


@lru_cache(maxsize=4096)
def _whole(version, cats):
    if len(cats) == len(CATS):
        return ((0, MAX),)
    items = []
    for c in cats:
        items += BY_CAT[version][c]
    return tuple(canon(items))


def query(version, include, exclude, lo, hi, inch, exch):
    """`include`: names or None; `exclude`: names. Bounds must be valid."""
    cats = frozenset(CATS if include is None else include) - frozenset(exclude or ())
    items = [(max(a, lo), min(b, hi)) for a, b in _whole(version, cats) if b >= lo and a <= hi]
    if inch:
        items = canon(items + [(ord(c), ord(c)) for c in inch])
    if exch:
        drop = sorted({ord(c) for c in exch})
        out = []
        i = 0
        for a, b in items:
            while i < len(drop) and drop[i] < a:
                i += 1
            k, start = i, a
            while k < len(drop) and drop[k] <= b:
                if drop[k] > start:
                    out.append((start, drop[k] - 1))
                start = drop[k] + 1
                k += 1
            if start <= b:
                out.append((start, b))
        items = out
    return tuple(items)


def expand(version, names):
    """Category names of a list of names and major classes; None if some entry is neither."""
    out = set()
    for n in names:
        if n in GROUPS:
            out.update(GROUPS[n])
        elif n in FULL_NAMES:
            out.add(str(n))
        else:
            return None
    return tuple(c for c in normalized(version) if c in out)
