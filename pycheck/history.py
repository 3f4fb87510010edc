"""C19: histories of calls in interpreters that have made no call before, sequential and threaded."""
import os
import pickle
import random
import select
import signal
import sys
import threading

import calls
import specs
from calls import want_query
from engine import CheckError, outcome
from model import CATS, MAJOR, VERSIONS, expand, normalized
from specs import names_arg, query_kwargs, version_arg, version_of

LIMIT = 60


def want(step):
    """The value, or None where an exception is due."""
    kind, arg = step
    if kind == "query":
        return want_query(arg)
    if kind == "categories":
        return normalized(version_of(arg))
    if kind == "expand":
        return expand(version_of(arg[1]), arg[0])
    if kind == "version":
        return arg if arg in VERSIONS else None
    return None


def do(ui, step):
    """A message, or None."""
    kind, arg = step
    if kind == "query":
        got = outcome(ui.query, **query_kwargs(ui, arg))
    elif kind == "categories":
        got = outcome(ui.categories) if arg is None else outcome(ui.categories, version_arg(ui, arg))
    elif kind == "expand":
        got = outcome(ui.as_general_categories, specs.FORMS[arg[2] if len(arg) > 2 else "list"](arg[0]), version_arg(ui, arg[1]))
    elif kind == "version":
        got = outcome(ui.UnicodeVersion, arg)
        if got[0] == "ok":
            got = ("ok", str(got[1]))
    else:
        fn, args = arg
        if kind != "fail" or not calls.judge({"fn": fn, "args": args})[1]:
            raise CheckError(f"not a call that must fail: {step}")
        got = outcome(getattr(ui, fn), **{k: calls.build(ui, x)[0] for k, x in args.items()})
    expected = want(step)
    if expected is None:
        if got[0] == "raised" and isinstance(got[1], Exception):
            return None
        return f"{step}: {got[1]!r}, expected an exception"
    if got[0] == "ok" and got[1] == expected and type(got[1]) is type(expected):
        return None
    return f"{step}: {str(got[1])[:300]!r}, expected {str(expected)[:300]}"


def sequential(ui, steps):
    for i, step in enumerate(steps):
        message = do(ui, step)
        if message:
            return f"call {i}: {message}"
    return None


def threaded(ui, threads):
    barrier = threading.Barrier(len(threads))
    messages = [None] * len(threads)

    def work(k):
        barrier.wait()
        try:
            messages[k] = sequential(ui, threads[k])
        except BaseException as e:
            messages[k] = e

    running = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(threads))]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    for t in running:
        t.start()
    for t in running:
        t.join()
    sys.setswitchinterval(interval)
    for k, m in enumerate(messages):
        if isinstance(m, BaseException):
            raise m
        if m:
            return f"thread {k}: {m}"
    return None


def in_child(run, ui, case):
    """Runs `run(ui, case)` in a fork of this process, which has made no call of its own."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(read)
        try:
            data = ("message", run(ui, case))
        except BaseException as e:
            data = ("error", repr(e))
        with os.fdopen(write, "wb") as f:
            pickle.dump(data, f)
        os._exit(0)
    os.close(write)
    data = b""
    late = False
    ticks = 0
    while True:
        ready, _, _ = select.select([read], [], [], 1)
        if not ready:
            ticks += 1
            if ticks < LIMIT:
                continue
            late = True
            os.kill(pid, signal.SIGKILL)
            break
        chunk = os.read(read, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(read)
    _, status = os.waitpid(pid, 0)
    if late:
        return f"{case}: no answer within {LIMIT} s"
    if os.WIFSIGNALED(status):
        return f"{case}: the interpreter died with signal {os.WTERMSIG(status)}"
    kind, value = pickle.loads(data)
    if kind == "error":
        raise CheckError(value)
    return value


FAILING = [
    ["fail", ["query", {"categories": ["names", "list", ["Lu", "zz"]]}]],
    ["fail", ["query", {"categories": ["names", "generator", ["Lu", "zz"]]}]],
    ["fail", ["query", {"exclude_categories": ["str", "Lu"]}]],
    ["fail", ["query", {"min_codepoint": ["int", 10], "max_codepoint": ["int", 5]}]],
    ["fail", ["query", {"max_codepoint": ["int", 0x110000]}]],
    ["fail", ["query", {"max_codepoint": ["int", -1]}]],
    ["fail", ["query", {"include_characters": ["surrogate", "a", 0xD800, "b"]}]],
    ["fail", ["query", {"version": ["str", "16.0.0"]}]],
    ["fail", ["query", {"categories": ["raises next", "Oops", ["Lu"]]}]],
    ["fail", ["categories", {"version": ["str", "16.0.0"]}]],
    ["fail", ["categories", {"version": ["int", 3]}]],
    ["fail", ["as_general_categories", {"categories": ["names", "list", ["L", "X"]]}]],
    ["fail", ["as_general_categories", {"categories": ["none"]}]],
    ["fail", ["UnicodeVersion", {"value": ["str", "99.0.0"]}]],
]


def rand_variant(rng, names):
    """Another list much like this one: the same text cut elsewhere, another order, one more or less."""
    names = list(names)
    k = rng.randrange(9)
    i = rng.randrange(len(names))
    if k == 0 and len(names) > 1:
        i = min(i, len(names) - 2)
        names[i:i + 2] = [names[i] + names[i + 1]]
    elif k == 1 and len(names[i]) > 1:
        at = rng.randrange(1, len(names[i]))
        names[i:i + 1] = [names[i][:at], names[i][at:]]
    elif k == 2:
        names = [rng.choice(["", ",", ", ", " ", "|", "\0", "/"]).join(names)]
    elif k == 3:
        names = list("".join(names))
    elif k == 4:
        rng.shuffle(names)
    elif k == 5:
        names.append(rng.choice([*names, *CATS, *MAJOR, "", "zz"]))
    elif k == 6:
        del names[i]
    elif k == 7:
        names[i] = rng.choice([names[i][:1], names[i].swapcase(), names[i] + " ", rng.choice(CATS)])
    elif k == 8:
        # The same letters, cut every two.
        text = "".join(names)
        names = [text[j:j + 2] for j in range(0, len(text), 2)]
    return names


def rand_names_step(rng, lists):
    """A call with names; some of it from an earlier call."""
    if lists and rng.randrange(3):
        names = rng.choice(lists)
        names = rand_variant(rng, names) if names and rng.randrange(4) else names
    else:
        names = specs.rand_names(rng, MAJOR)
    lists.append(names)
    if len(lists) > 6:
        lists.pop(0)
    version = rng.choice([None, None, ["latest"], ["new", rng.choice(VERSIONS)]])
    form = rng.choice(["list", "generator", "reentrant", "yielding", "tuple"])
    if rng.randrange(3):
        return ["expand", [names, version, form]]
    key = rng.choice(["categories", "exclude_categories"])
    if all(n in CATS for n in names):
        return ["query", {key: [form, names], "version": version, "max_codepoint": rng.choice([255, 600, 0x3000])}]
    return ["fail", ["query", {key: ["names", form, names]}]]


def rand_lookalike(rng, q):
    """A call that must fail, whose arguments equal those of a valid one but for a type."""
    args = {}
    for k, v in q.items():
        if v is None:
            args[k] = ["none"]
        elif k == "version":
            args[k] = ["version", version_of(v)]
        elif k.endswith("categories"):
            args[k] = ["names", *v]
        else:
            args[k] = ["int" if isinstance(v, int) else "str", v]
    k = rng.choice([k for k in args if args[k] != ["none"]] or ["version"])
    kind, *rest = args[k] if args.get(k, ["none"]) != ["none"] else ["version", "16.0.0"]
    if kind == "int":
        args[k] = rng.choice([["float", str(float(rest[0]))], ["fraction", rest[0]], ["decimal", rest[0]], ["str", str(rest[0])], ["complex", rest[0]]])
    elif kind == "version":
        args[k] = rng.choice([["str", rest[0]], ["int", VERSIONS.index(rest[0])], ["items", [["str", rest[0]]]]])
    elif kind == "names":
        args[k] = rng.choice([["str", "".join(rest[1])], ["strsub", ",".join(rest[1])], ["items", [["items", [["str", n] for n in rest[1]]]]],
                              ["items", [["bytes", n] for n in [*rest[1], "Lu"]]]])
    else:
        args[k] = rng.choice([["bytes", rest[0].encode("latin-1", "replace").decode("latin-1")], ["items", [["str", c] for c in rest[0][:50]]], ["surrogate", rest[0], 0xD800, ""]])
    return ["fail", ["query", args]]


def rand_twins(rng):
    """Each valid call next to one that must fail although its arguments compare equal, or nearly."""
    steps = []
    for _ in range(rng.randrange(1, 6)):
        q = specs.rand_query(rng)
        pair = [["query", q], rand_lookalike(rng, q), ["query", q], rand_lookalike(rng, q)]
        steps += rng.sample(pair, len(pair)) if rng.randrange(3) == 0 else pair
    return steps


def rand_step(rng, near, lists):
    k = rng.randrange(21)
    if k == 20 and near:
        return rand_lookalike(rng, rng.choice(near))
    if k >= 16:
        return rand_names_step(rng, lists)
    if k < 5:
        return ["categories", rng.choice(specs.VERSION_SPECS)]
    if k < 7:
        return ["expand", [specs.rand_names(rng, MAJOR), rng.choice(specs.VERSION_SPECS), rng.choice(["list", "generator", "reentrant", "yielding"])]]
    if k == 7:
        return rng.choice(FAILING)
    if k == 8:
        return ["version", rng.choice([*VERSIONS, "16.0", "1.0.0"])]
    if k < 12 and near:
        # Almost the same query as before.
        q = dict(rng.choice(near))
        key = rng.choice(["version", "min_codepoint", "max_codepoint", "categories", "exclude_categories", "include_characters", "exclude_characters", "none"])
        other = specs.rand_query(rng)
        if key in q:
            del q[key]
        if key in other:
            q[key] = other[key]
        lo, hi = q.get("min_codepoint"), q.get("max_codepoint")
        if lo is not None and hi is not None and lo > hi:
            q["min_codepoint"], q["max_codepoint"] = hi, lo
    else:
        q = specs.rand_query(rng)
    near.append(q)
    return ["query", q]


def rand_history(rng, most=24):
    near, lists = [], []
    steps = [rand_step(rng, near, lists) for _ in range(rng.randrange(2, most))]
    # Some calls come back at the end.
    return steps + rng.sample(steps, rng.randrange(0, len(steps) + 1))


def rand_names_history(rng):
    lists = []
    return [rand_names_step(rng, lists) for _ in range(rng.randrange(2, 60))]


def rand_wear(rng):
    q = {"max_codepoint": rng.choice([None, 0x10FFFF, 300, 0x3000]), "categories": rng.choice([None, ["list", ["Zl"]], ["list", ["Cs"]]])}
    first = rng.choice([["query", q], ["categories", rng.choice(specs.VERSION_SPECS)], ["expand", [[rng.choice(MAJOR)], None]], rng.choice(FAILING)])
    return [first, rng.randrange(66_000, 70_000) if first[0] == "query" else 66_500, *rand_history(rng, 10)]


def worn(ui, case):
    """The first step as often as the second item says, then the rest."""
    step, times, *rest = case
    for i in range(times):
        message = do(ui, step)
        if message:
            return f"call {i}: {message}"
    return sequential(ui, [step, *rest, step])


def rand_threads(rng):
    n = rng.randrange(2, 9)
    if rng.randrange(2):
        shared = rand_history(rng, 8)
        return [rng.sample(shared, len(shared)) for _ in range(n)]
    return [rand_history(rng, 8) for _ in range(n)]


def c19(s, ui):
    def steps_of(case):
        return [x for t in case for x in t] if case and isinstance(case[0][0], list) else case

    def classify(case):
        steps = steps_of(case)
        versions = {str(x[1]) for x in steps if x[0] == "categories"}
        labels = sorted({x[0] for x in steps})
        return len({repr(x) for x in steps}) > 1, [*labels, *(["several category lists"] if len(versions) > 1 else [])]

    fresh = lambda run: lambda case: in_child(run, ui, case)  # noqa: E731
    s.bulk("names much alike", 5_000, rand_names_history, fresh(sequential), classify)
    s.bulk("equal but for a type", 4_000, rand_twins, fresh(sequential), classify)
    s.bulk("histories", 6_000, rand_history, fresh(sequential), classify)
    s.bulk("threads", 3_000, rand_threads, fresh(threaded), classify)

    def orders(k):
        # Which version is asked first, and every pair of versions, with and without naming the latest.
        def cases():
            for b in specs.VERSION_SPECS:
                first = ["categories", specs.VERSION_SPECS[k]]
                yield [first, ["categories", b], first]
                yield [["expand", [list(MAJOR), specs.VERSION_SPECS[k]]], ["categories", b], ["expand", [list(CATS), b]]]
            for bad in FAILING:
                yield [bad, ["categories", specs.VERSION_SPECS[k]], bad, ["query", {"version": specs.VERSION_SPECS[k], "categories": ["list", ["Zl"]]}]]
        return cases

    s.sweep("pairs of versions", [orders(k) for k in range(len(specs.VERSION_SPECS))], fresh(sequential))

    def forward_and_back():
        order = [["categories", v] for v in specs.VERSION_SPECS]
        for seed in range(64):
            random.Random(seed).shuffle(order)
            yield order + order[::-1]

    s.sweep("every version in many orders", [forward_and_back], fresh(sequential))
    # One long life in a single process: failures early on must not matter much later.
    s.bulk("long histories", 16, lambda rng: [x for _ in range(150) for x in rand_history(rng)], fresh(sequential), lambda c: (True, ()))
    # Counters wrap: many more calls than fit in 16 bits, of which a few kinds again and again.
    s.bulk("very long histories", 8, rand_wear, fresh(worn), lambda c: (True, ()))
    return {
        "rule": "Histories of valid and failing calls, each in a fork of an interpreter that has imported the module and called "
                "nothing, sequentially and from two to eight threads. Non-trivial: two different calls.",
        "assumptions": [*calls.TRUST, "thread interleavings are the interpreter's own, with the shortest switch interval"],
    }
