"""C24: what a Python call leaves behind."""
import ctypes
import gc
import sys
import time

import specs
from engine import CheckError, outcome
from model import CATS, MAJOR, MAX, VERSIONS
from specs import FORMS, version_arg

# A call gives its objects back; these forms keep some of their own accord.
FORM_NAMES = sorted(set(FORMS) - {"enum", "reentrant"})
KINDS = ("query", "categories", "as_general_categories", "UnicodeVersion")


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


try:
    mallinfo2 = ctypes.CDLL(None).mallinfo2
    mallinfo2.restype = Mallinfo
except (OSError, AttributeError):
    mallinfo2 = None


def heap():
    """Python objects alive, and bytes of the C heap in use."""
    gc.collect()
    m = mallinfo2() if mallinfo2 else None
    return sys.getallocatedblocks(), (m.uordblks + m.hblkhd) if m else 0


def counts(objects):
    return [sys.getrefcount(x) for x in objects]


def fresh(s):
    """A str of its own, neither shared nor interned where that can be had."""
    return "".join([s[: len(s) // 2], s[len(s) // 2 :]]) if len(s) > 1 else s


def failing(names, after):
    for i, n in enumerate(names):
        if i == after:
            raise KeyError(n)
        yield n
    if after >= len(names):
        raise KeyError("at the end")


def names_object(spec):
    """(object, the names in it)."""
    names = [fresh(n) if isinstance(n, str) else n for n in spec[1]]
    if spec[0] == "raising":
        return failing(names, spec[2]), names
    if spec[0] == "text":
        return fresh("".join(spec[1])), names
    return FORMS[spec[0]](names), names


def make(ui, case, small=None):
    """(function, arguments, objects to watch). Into `small` go the names, with how often they are referenced by others."""
    args, watched = {}, []
    for key, value in case["arguments"].items():
        if key in ("categories", "exclude_categories") and value is not None:
            value, names = names_object(value)
            if small is not None:
                small += names
            del names
        elif key == "version" and value is not None:
            value = ui.UnicodeVersion(value) if isinstance(value, str) else value
        elif key == "value":
            value = fresh(value)
        elif isinstance(value, str):
            value = fresh(value)
        args[key] = value
        watched.append(value)
    return getattr(ui, case["call"]), args, watched


def call(ui, case):
    fn, args, _ = make(ui, case)
    outcome(fn, **args)


def rand_names(rng):
    names = specs.rand_names(rng, MAJOR if rng.randrange(3) == 0 else ())
    k = rng.randrange(12)
    if k == 0:
        names = [*names, "unknown name", *names[:1]]
    elif k == 1:
        names = [*names, 7, None]
    elif k == 2:
        names = [*names, "\ud800 half"]
    elif k == 3:
        return ["raising", names, rng.randrange(len(names) + 1)]
    elif k == 4:
        return ["text", names or ["Lu"]]
    if not all(isinstance(n, str) for n in names):
        return [rng.choice(["list", "tuple", "generator", "iterator", "deque"]), names]
    return [rng.choice(FORM_NAMES), names]


def rand_version(rng):
    return rng.choice([None, *VERSIONS, *VERSIONS, 16, ["16.0.0"]])


def rand_case(rng):
    kind = rng.choice(["query"] * 5 + ["as_general_categories"] * 3 + ["categories", "UnicodeVersion"])
    a = {}
    if kind == "UnicodeVersion":
        a["value"] = rng.choice([*VERSIONS, *VERSIONS, "16.0", specs.rand_text(rng), "\udfff", "x" * rng.randrange(40)])
    elif kind == "categories":
        if rng.randrange(4):
            a["version"] = rand_version(rng)
    elif kind == "as_general_categories":
        a["categories"] = rand_names(rng)
        if rng.randrange(2):
            a["version"] = rand_version(rng)
    else:
        for key in ("categories", "exclude_categories"):
            if rng.randrange(2):
                a[key] = rand_names(rng)
        lo, hi = specs.rand_codepoint(rng), specs.rand_codepoint(rng)
        if rng.randrange(8):
            lo, hi = min(lo, hi), max(lo, hi)
        for key, value in (("min_codepoint", lo), ("max_codepoint", hi)):
            if rng.randrange(2):
                a[key] = rng.choice([value] * 9 + [-value - 1000, value + MAX + 1, value << 40, None, "12"])
        for key in ("include_characters", "exclude_characters"):
            if rng.randrange(2):
                a[key] = rng.choice([specs.rand_text(rng)] * 6 + [specs.rand_long(rng), "\ud800" * 3, None])
        if rng.randrange(2):
            a["version"] = rand_version(rng)
        if rng.randrange(20) == 0:
            a["nothing"] = 1
    return {"call": kind, "arguments": a}


WORDS = "abcdefghijklmnopqrstuvwxyz"


def word(k):
    return "".join(WORDS[k // 26**i % 26] for i in range(5))


def varied(case, how, k):
    """The same call with other arguments."""
    a = dict(case["arguments"])
    for key, value in case["arguments"].items():
        if key in ("categories", "exclude_categories") and value:
            extra = [c for i, c in enumerate(CATS) if k >> i & 1] if how % 2 else [word(k)]
            a[key] = [value[0], [*value[1], *extra], *value[2:]]
        elif key == "min_codepoint" and isinstance(value, int):
            a[key] = k * 2_654_435_761 % (min(a.get("max_codepoint") or MAX, MAX) + 1) if isinstance(a.get("max_codepoint", 0), (int, type(None))) and (a.get("max_codepoint") or 0) >= 0 else k
        elif key == "include_characters" and value is not None:
            a[key] = value + word(k)
        elif key == "exclude_characters" and value is not None:
            a[key] = value + chr(0x4E00 + k % 20_000) + word(k)
        elif key == "value":
            a[key] = value + str(k)
        elif key == "version" and how % 3 == 0:
            a[key] = VERSIONS[k % len(VERSIONS)]
    return {"call": case["call"], "arguments": a}


def grows(step, first, then):
    """A message when memory keeps growing with the calls made."""
    k = 0
    gc.freeze()
    for ends, surely in ((first, False), (then, True)):
        rows = []
        at = heap()
        for end in ends:
            begin, until = k, time.monotonic() + 6
            while k < end and (k % 64 or time.monotonic() < until):
                step(k)
                k += 1
            now = heap()
            rows.append((k - begin, now[0] - at[0], now[1] - at[1]))
            at = now
        # Taking these numbers makes a few objects, too. An allocation may have room for twice what is in it.
        objects = all(d * (8 if surely else 2) >= n > 0 for n, d, _ in rows[1:])
        size = all(b >= (4 if surely else 12) * n > 0 for n, _, b in rows[1:])
        if not objects and not size:
            return None
    return "kept: " + ", then ".join(f"{d} objects and {b} bytes by {n} calls" for n, d, b in rows)


def c24(s, ui):
    def guard(case):
        if case.get("call") not in KINDS or not isinstance(case.get("arguments"), dict):
            raise CheckError(f"no such case: {case}")

    def references(case):
        """Objects given are held as often after the call as before it."""
        guard(case)
        # The first call may import or cache.
        fn, args, watched = make(ui, case)
        outcome(fn, **args)
        names = []
        fn, args, watched = make(ui, case, names)
        before = counts(watched)
        kind, got = outcome(fn, **args)
        del got
        for i, (b, a) in enumerate(zip(before, counts(watched))):
            if a > b:
                return f"{case}: {watched[i]!r:.100} is referenced {b} times before and {a} times after the call, which {kind}"
        del fn, args, watched, before
        # Nothing is left but `names` and what the test itself holds: as for names that no call was made with.
        others = []
        make(ui, case, others)
        for i, (a, b) in enumerate(zip(counts(names), counts(others))):
            if names[i] is not others[i] and a > b:
                return f"{case}: the name {names[i]!r:.100} is referenced {a} times after the call, which {kind}; {b} times without"
        return None

    def again(case):
        guard(case)
        m = grows(lambda k: call(ui, case), (16, 32, 48, 64), (3_000, 6_000, 12_000, 24_000))
        return f"{case}: {m}" if m else None

    def vary(case):
        guard(case)
        m = grows(lambda k: call(ui, varied(case, case["how"], k + case["from"])), (50, 120, 300, 700), (6_000, 13_000, 28_000, 60_000))
        return f"{case}: {m}" if m else None

    def tags(case):
        a = case["arguments"]
        return bool(a), (case["call"], *(["an iterable that raises"] if any(isinstance(v, list) and v and v[0] == "raising" for v in a.values()) else []))

    s.bulk("references", 300_000, rand_case, references, tags)
    s.bulk("again", 30_000, rand_case, again, tags)
    s.bulk("varied", 1_500, lambda rng: {**rand_case(rng), "how": rng.randrange(6), "from": rng.randrange(1 << 22)}, vary, tags)
    return {
        "rule": "Calls of every function with valid and invalid values, in every form of iterable, and with iterables that raise: "
                "how often the objects given are referenced before and after; objects alive and heap in use while one call is made "
                "over and over, and while calls that differ are made. Non-trivial: an argument is given.",
        "assumptions": ["sys.getrefcount, sys.getallocatedblocks and mallinfo2 tell the truth"],
    }
