"""Campaigns (Hypothesis, shrinking) and sweeps (enumerated) over worker processes.

A case is a JSON value. A test function returns None or a message saying what is wrong; an exception
in a test function is an error of the check, not a violation.
"""
import hashlib
import json
import mmap
import os
import pickle
import random
import re
import resource
import select
import signal
import struct
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(os.environ.get("UVH_VERIF", "/verif"))
WORKERS = 8
SLOT = 1 << 16
HEAD = struct.Struct("<Id")
# A case that takes longer than this is a violation. Children of a case have limits of their own, below this.
LIMIT = 200


class CheckError(Exception):
    """The check itself is broken."""


def _dump(case):
    return json.dumps(case, sort_keys=True)


def _seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


class Tally:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.classes = {}
        self.samples = []
        self.failure = None  # (case, message)
        self.first = None
        self.error = None

    def count(self, case, nontrivial, labels=()):
        self.evaluations += 1
        for label in labels:
            self.classes[label] = self.classes.get(label, 0) + 1
        if nontrivial:
            key = hashlib.md5(_dump(case).encode()).digest()
            if key not in self.distinct:
                self.distinct.add(key)
                if len(self.samples) < 2:
                    self.samples.append(case)


class Session:
    def __init__(self, ident, seed, scale, tier, replay=None):
        self.id, self.seed, self.scale, self.tier = ident, seed, scale, tier
        self.replay = replay
        self.replay_result = None
        self.evaluations = 0
        self.nontrivial = 0
        self.samples = []
        self.classes = {}
        self.tests = []
        self.failures = []
        self.errors = []
        self.stopped = False  # leave out the remaining tests
        self.started = time.monotonic()

    def _replayed(self, name, test):
        if self.replay is None:
            return self.stopped
        if self.replay["test"] == name:
            self.replay_result = (test(self.replay["case"]),)
        return True

    def campaign(self, name, examples, strategy, test, classify):
        """`classify(case)` gives (nontrivial, labels)."""
        if self._replayed(name, test):
            return
        per = max(1, -(-int(examples * self.scale) // WORKERS))
        ident, run_seed = self.id, self.seed

        def work(index, tally, note):
            from hypothesis import HealthCheck, Phase, given, seed, settings

            def inner(case):
                note(case)
                message = None
                try:
                    if tally.failure is None:
                        tally.count(case, *classify(case))
                    message = test(case)
                except Exception as e:
                    raise CheckError(f"{name}: {_dump(case)}") from e
                if message:
                    if tally.failure is None:
                        tally.first = case
                    tally.failure = (case, message)
                    raise AssertionError("violated")

            run = settings(
                max_examples=per,
                database=None,
                deadline=None,
                derandomize=False,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                report_multiple_bugs=False,
                print_blob=False,
            )(given(strategy())(inner))
            run = seed(_seed(run_seed, ident, name, index))(run)
            try:
                run()
            except CheckError:
                raise
            except BaseException:
                if tally.failure is None:
                    raise

        self._collect(name, "random", work)

    def bulk(self, name, cases, make, test, classify):
        """Many cases from `make(rng)`, cheaper than a campaign; failures are shrunk as JSON values."""
        if self._replayed(name, test):
            return
        per = max(1, -(-int(cases * self.scale) // WORKERS))
        ident, run_seed = self.id, self.seed

        def work(index, tally, note):
            rng = random.Random(_seed(run_seed, ident, name, index))
            for _ in range(per):
                case = make(rng)
                note(case)
                tally.count(case, *classify(case))
                message = test(case)
                if message:
                    tally.first = case
                    tally.failure = shrink(case, message, test, note)
                    return

        self._collect(name, "random", work)

    def sweep(self, name, items, test, classify=lambda case: (True, ())):
        """`items`: list of callables or cases; a callable yields cases."""
        if self._replayed(name, test):
            return

        def work(index, tally, note):
            for item in items[index::WORKERS]:
                for case in item() if callable(item) else (item,):
                    note(case)
                    tally.count(case, *classify(case))
                    message = test(case)
                    if message:
                        tally.failure = (case, message)
                        return

        self._collect(name, "enumerated", work)

    def _collect(self, name, kind, work):
        started = time.monotonic()
        sys.stdout.flush()
        sys.stderr.flush()
        children = []
        for index in range(WORKERS):
            slot = mmap.mmap(-1, SLOT)
            HEAD.pack_into(slot, 0, 0, time.monotonic())
            read, write = os.pipe()
            pid = os.fork()
            if pid == 0:
                _worker(index, work, slot, write, [c[2] for c in children] + [read])
            os.close(write)
            children.append((pid, slot, read))
        distinct = set()
        evaluations = 0
        best = None
        errors = []
        for index, (data, stalled, slot, status) in enumerate(_gather(children)):
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                if not stalled and sig in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
                    errors.append(f"{name}: worker ended by signal {sig}")
                    continue
                size, _ = HEAD.unpack_from(slot)
                case = json.loads(slot[HEAD.size : HEAD.size + size]) if size else None
                tally = Tally()
                tally.failure = (case, f"no answer within {LIMIT} s" if stalled else f"the interpreter died with signal {sig}")
                self.stopped |= stalled
            elif os.WEXITSTATUS(status) or not data:
                errors.append(f"{name}: worker exited with {os.WEXITSTATUS(status)}")
                continue
            else:
                tally = pickle.loads(data)
            if tally.error:
                errors.append(tally.error)
                continue
            evaluations += tally.evaluations
            distinct |= tally.distinct
            for k, v in tally.classes.items():
                key = f"{name}: {k}"
                self.classes[key] = self.classes.get(key, 0) + v
            if index == 0:
                self.samples += [{"test": name, "case": _short(c)} for c in tally.samples]
            if tally.failure:
                size = len(_dump(tally.failure[0]))
                if best is None or size < best[0]:
                    best = (size, *tally.failure, tally.first)
        self.errors += errors
        if best and time.monotonic() - self.started > 300:
            self.stopped = True
        if best:
            self.failures.append({"test": name, "case": best[1], "message": best[2], "unshrunk": best[3]})
        self.evaluations += evaluations
        self.nontrivial += len(distinct)
        self.tests.append({
            "test": name, "kind": kind, "evaluations": evaluations,
            "distinct_nontrivial": len(distinct), "wall_s": round(time.monotonic() - started, 3),
        })

    def finish(self, rule, exhaustive, assumptions, wall):
        (VERIF / "evidence").mkdir(exist_ok=True)
        evidence = {
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": self.nontrivial, "rule": rule,
                "samples": self.samples[:12], "exhaustive": exhaustive, "classes": self.classes,
                "tests": self.tests,
            },
            "assumptions": assumptions, "wall_s": wall, "violations": len(self.failures),
        }
        (VERIF / "evidence" / f"{self.id}.json").write_text(json.dumps(evidence, indent=1) + "\n")
        print(f"{self.id}: {self.evaluations} evaluations, {self.nontrivial} distinct non-trivial, {wall:.1f} s")
        for e in self.errors:
            print(e, file=sys.stderr)
        if not self.failures:
            return 2 if self.errors else 0
        (VERIF / "replays").mkdir(exist_ok=True)
        for f in self.failures:
            path = VERIF / "replays" / f"{self.id}-{re.sub(r'[^A-Za-z0-9]+', '_', f['test'])}.json"
            path.write_text(json.dumps({"property": self.id, **f}, indent=1) + "\n")
            print(f"  {self.id}/{f['test']}: {f['message'][:2000]}")
            print(f"VIOLATION property={self.id} replay={path}")
        return 1


def _smaller(value):
    """Simpler JSON values, simplest first."""
    if isinstance(value, dict):
        for k in value:
            yield {x: y for x, y in value.items() if x != k}
        for k, v in value.items():
            for w in _smaller(v):
                yield {**value, k: w}
    elif isinstance(value, list):
        n = len(value)
        size = n
        while size:
            for at in range(0, n - size + 1, size):
                yield value[:at] + value[at + size :]
            size //= 2
        for i, v in enumerate(value):
            for w in _smaller(v):
                yield value[:i] + [w] + value[i + 1 :]
    elif isinstance(value, bool) or value is None:
        return
    elif isinstance(value, int):
        if value:
            yield 0
            step = value // 2
            while step:
                yield value - step
                step = int(step / 2)
            yield value - (1 if value > 0 else -1)
    elif isinstance(value, str):
        n = len(value)
        size = n
        while size:
            for at in range(0, n - size + 1, size):
                yield value[:at] + value[at + size :]
            size //= 2


def shrink(case, message, test, note, seconds=20):
    """Greedy: a candidate the test cannot interpret is passed over."""
    until = time.monotonic() + seconds
    again = True
    while again and time.monotonic() < until:
        again = False
        for smaller in _smaller(case):
            if time.monotonic() > until:
                break
            try:
                note(smaller)
                got = test(smaller)
            except Exception:
                continue
            if got:
                case, message, again = smaller, got, True
                break
    note(case)
    return case, message


def _gather(children):
    """What each worker sent, in order: (data, whether it stalled, slot, status)."""
    data = {read: b"" for _, _, read in children}
    open_ = {read: (pid, slot) for pid, slot, read in children}
    stalled = set()
    # Seconds are counted, and no clock is compared: it jumps when the sandbox stands still.
    seen = {read: (0, 0) for read in open_}
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 1)
        for read in ready:
            chunk = os.read(read, 1 << 20)
            data[read] += chunk
            if not chunk:
                os.close(read)
                del open_[read]
        if not ready:
            for read, (pid, slot) in open_.items():
                at, ticks = HEAD.unpack_from(slot)[1], seen[read][1] + 1
                seen[read] = (at, ticks if at == seen[read][0] else 0)
                if seen[read][1] > LIMIT and read not in stalled:
                    stalled.add(read)
                    os.kill(pid, signal.SIGKILL)
    return [(data[read], read in stalled, slot, os.waitpid(pid, 0)[1]) for pid, slot, read in children]


def _worker(index, work, slot, write, inherited):
    for fd in inherited:
        os.close(fd)
    tally = Tally()
    # Memory without end is a crash of the case at hand, not of the machine.
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

    def note(case):
        data = _dump(case).encode()
        if len(data) > SLOT - HEAD.size:
            data = b""
        HEAD.pack_into(slot, 0, len(data), time.monotonic())
        slot[HEAD.size : HEAD.size + len(data)] = data

    try:
        work(index, tally, note)
    except BaseException:
        tally.error = traceback.format_exc()
    try:
        with os.fdopen(write, "wb") as f:
            pickle.dump(tally, f)
    finally:
        os._exit(0)


def _short(case):
    text = _dump(case)
    return case if len(text) <= 600 else f"{text[:600]}... ({len(text)} chars)"


def outcome(fn, /, *args, **kwargs):
    """("ok", value) or ("raised", exception). A Rust panic arrives as a BaseException."""
    try:
        return "ok", fn(*args, **kwargs)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return "raised", e
