"""C22: what the package's type stubs declare, against the module as it runs."""
import ast

import specs
from engine import VERIF, CheckError, outcome
from model import CATS, MAJOR, MAX, VERSIONS
from specs import FORMS, version_arg

STUB = VERIF / "build" / "pyext" / "unicode_intervals" / "__init__.pyi"
MISSING = object()
# A well-typed value may still be a bad one. Every other exception is not for a well-typed call.
REFUSALS = (ValueError, OverflowError)
# Nested calls and names that fail on purpose are the business of C16.
ITERABLES = sorted(set(FORMS) - {"reentrant"})
WITHIN = {
    "Iterable": ITERABLES,
    "Iterator": ["generator", "iterator", "map", "filter", "chain"],
    "Collection": ["list", "tuple", "set", "frozenset", "dict", "keys", "deque", "subclass", "enum", "counter", "userlist"],
    "Sequence": ["list", "tuple", "deque", "subclass", "enum", "userlist"],
    "list": ["list", "subclass", "enum"],
    "List": ["list", "subclass", "enum"],
    "set": ["set"],
    "frozenset": ["frozenset"],
    "AbstractSet": ["set", "frozenset", "keys"],
    "Generator": ["generator"],
}


ALIASES = {}


class Unknown(Exception):
    """An annotation that is not understood here: what carries it is left out."""


def typ(node):
    """An annotation as data: ("int",), ("union", ...), ("tuple", (...)), ("each", t), ("some", kind, t), ("object", class)."""
    if isinstance(node, ast.Constant):
        if node.value is None:
            return ("none",)
        if isinstance(node.value, str):
            return typ(ast.parse(node.value, mode="eval").body)
        raise Unknown(ast.dump(node))
    if isinstance(node, ast.Attribute):
        return typ(ast.Name(node.attr))
    if isinstance(node, ast.Name):
        if node.id in ("int", "str", "bool"):
            return (node.id,)
        if node.id in ("object", "Any"):
            return ("any",)
        if node.id == "UnicodeVersion":
            return ("version",)
        if node.id in ALIASES:
            return typ(ALIASES[node.id])
        raise Unknown(node.id)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return ("union", typ(node.left), typ(node.right))
    if isinstance(node, ast.Subscript):
        name = node.value.attr if isinstance(node.value, ast.Attribute) else getattr(node.value, "id", "")
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        if name == "Optional":
            return ("union", typ(args[0]), ("none",))
        if name == "Union":
            return ("union", *map(typ, args))
        if name in ("Final", "ClassVar", "Annotated"):
            return typ(args[0])
        if name in ("tuple", "Tuple"):
            if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is ...:
                return ("each", typ(args[0]))
            return ("tuple", *map(typ, args))
        if name in WITHIN and typ(args[0]) == ("str",):
            return ("some", name)
    raise Unknown(ast.dump(node))


def parameters(function, skip):
    """[(name, kind, type, required)]; kind: positional, either, keyword."""
    a = function.args
    if a.vararg or a.kwarg:
        raise Unknown("variadic")
    rows = []
    both = [(x, "positional") for x in a.posonlyargs] + [(x, "either") for x in a.args]
    defaults = [None] * (len(both) - len(a.defaults)) + a.defaults
    for (x, kind), default in list(zip(both, defaults))[skip:]:
        rows.append((x.arg, kind, typ(x.annotation), default is None))
    for x, default in zip(a.kwonlyargs, a.kw_defaults):
        rows.append((x.arg, "keyword", typ(x.annotation), default is None))
    return rows


class Declared:
    """Names, attributes and signatures in the stub."""

    def __init__(self, text):
        self.names, self.attributes, self.calls, self.members, self.skipped = [], [], [], {}, []
        body = ast.parse(text).body
        for node in body:
            # Names for types, which need not exist at run time.
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                ALIASES[node.targets[0].id] = node.value
            elif isinstance(node, ast.AnnAssign) and node.value is not None and "TypeAlias" in ast.dump(node.annotation):
                ALIASES[node.target.id] = node.value
            elif type(node).__name__ == "TypeAlias":
                ALIASES[node.name.id] = node.value
            else:
                self.add(node, None)
        self.calls = [(f"{n}#{i}" if [c[0] for c in self.calls].count(n) > 1 else n, *rest) for i, (n, *rest) in enumerate(self.calls)]

    def add(self, node, owner):
        try:
            if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                path = [*([owner] if owner else []), node.target.id]
                if node.target.id.startswith("_") and not node.target.id.endswith("__"):
                    return
                self.note(path)
                self.attributes.append((path, typ(node.annotation)))
            elif isinstance(node, ast.FunctionDef):
                self.note([*([owner] if owner else []), node.name])
                marks = {d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?") for d in node.decorator_list}
                if marks - {"staticmethod", "classmethod", "overload", "property", "final"}:
                    raise Unknown(f"{node.name}: {marks}")
                if owner is None:
                    how, skip = "function", 0
                elif node.name in ("__new__", "__init__"):
                    how, skip = "class", 1
                elif "staticmethod" in marks:
                    how, skip = "static", 0
                elif "classmethod" in marks:
                    how, skip = "static", 1
                elif "property" in marks:
                    how, skip = "property", 1
                else:
                    how, skip = "method", 1
                returns = ("version",) if node.name == "__init__" else typ(node.returns)
                name = ".".join([*([owner] if owner else []), node.name])
                self.calls.append((name, how, parameters(node, skip), returns))
            elif isinstance(node, ast.ClassDef) and owner is None:
                self.note([node.name])
                self.members[node.name] = set()
                for inner in node.body:
                    self.add(inner, node.name)
        except Unknown as e:
            self.skipped.append(f"{getattr(node, 'name', '')}: {e}")

    def note(self, path):
        if path not in self.names and not (path[-1].startswith("_") and not path[-1].endswith("__")):
            self.names.append(path)
        if len(path) == 2:
            self.members[path[0]].add(path[1])


def resolve(ui, path):
    at = ui
    for name in path:
        at = getattr(at, name, MISSING)
        if at is MISSING:
            break
    return at


def misfit(ui, value, t, depth=0):
    """What is not of the declared type, or None."""
    kind = t[0]
    if kind == "any":
        return None
    if kind == "union":
        found = [misfit(ui, value, x) for x in t[1:]]
        return None if None in found else found[0]
    if kind == "none":
        return None if value is None else f"{value!r:.200} is not None"
    if kind == "version":
        return None if isinstance(value, ui.UnicodeVersion) else f"a {type(value).__name__}, not a UnicodeVersion"
    if kind == "bool":
        return None if type(value) is bool else f"a {type(value).__name__}, not a bool"
    if kind == "int":
        return None if type(value) is int else f"a {type(value).__name__}, not an int: {value!r:.100}"
    if kind == "str":
        return None if isinstance(value, str) else f"a {type(value).__name__}, not a str: {value!r:.100}"
    if kind in ("each", "tuple"):
        if not isinstance(value, tuple):
            return f"a {type(value).__name__}, not a tuple"
        if kind == "tuple" and len(value) != len(t) - 1:
            return f"a tuple of {len(value)}, not of {len(t) - 1}"
        for i, x in enumerate(value):
            m = misfit(ui, x, t[1] if kind == "each" else t[1 + i], depth + 1)
            if m:
                return f"item {i}: {m}"
        return None
    if kind == "some":
        want = {"list": list, "List": list, "set": set, "frozenset": frozenset}.get(t[1])
        if want and not isinstance(value, want):
            return f"a {type(value).__name__}, not a {t[1]}"
        return next((f"{x!r:.100} is not a str" for x in value if not isinstance(x, str)), None)
    raise CheckError(t)


# ---- Values of a declared type, as JSON ----

def rand_str(rng):
    k = rng.randrange(12)
    if k < 3:
        return rng.choice([*CATS, *MAJOR, *VERSIONS])
    if k < 9:
        return specs.rand_text(rng)
    if k < 11:
        return specs.rand_long(rng)
    return "".join(chr(rng.randrange(MAX + 1)) for _ in range(rng.randrange(4)))


def rand_int(rng):
    k = rng.randrange(12)
    if k < 9:
        return specs.rand_codepoint(rng)
    if k == 9:
        return rng.choice([MAX + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 32, 1 << 63, 1 << 64, 1 << 200])
    return rng.choice([-1, -2, -MAX, -(1 << 31), -(1 << 63), -(1 << 200)])


def rand_value(rng, t):
    kind = t[0]
    if kind == "union":
        return rand_value(rng, rng.choice(t[1:]))
    if kind == "none":
        return ["none"]
    if kind == "int":
        return ["int", rand_int(rng), rng.choice(["int"] * 6 + ["subclass", "bool"])]
    if kind == "bool":
        return ["int", rng.randrange(2), "bool"]
    if kind == "str":
        return ["str", rand_str(rng), rng.choice(["str"] * 6 + ["subclass"])]
    if kind == "version":
        return ["version", rng.choice(specs.VERSION_SPECS[1:])]
    if kind == "some":
        names = specs.rand_names(rng, MAJOR if rng.randrange(2) else ())
        if rng.randrange(6) == 0:
            names = [*names, rand_str(rng)]
            rng.shuffle(names)
        return ["some", rng.choice(WITHIN[t[1]]), names]
    raise Unknown(kind)


class Number(int):
    """An int subclass is an int too."""


def build(ui, v):
    kind = v[0]
    if kind == "none":
        return None
    if kind == "int":
        return bool(v[1] % 2) if v[2] == "bool" else Number(v[1]) if v[2] == "subclass" else int(v[1])
    if kind == "str":
        return specs.Name(v[1]) if v[2] == "subclass" else str(v[1])
    if kind == "version":
        return version_arg(ui, v[1])
    if kind == "some":
        return FORMS[v[1]](v[2])
    raise CheckError(v)


def typable(t):
    return t[0] in ("none", "int", "bool", "str", "version", "some") or t[0] == "union" and all(map(typable, t[1:]))


def fits(v, t):
    """Whether a case's value is of the type: guards what shrinking makes up."""
    if t[0] == "union":
        return any(fits(v, x) for x in t[1:])
    if not isinstance(v, list) or not v or v[0] != {"bool": "int"}.get(t[0], t[0]):
        return False
    if t[0] == "some":
        return len(v) == 3 and v[1] in WITHIN[t[1]] and all(isinstance(x, str) for x in v[2])
    if t[0] in ("int", "bool"):
        return len(v) == 3 and isinstance(v[1], int) and (v[2] in ("int", "subclass", "bool") if t[0] == "int" else v[2] == "bool")
    if t[0] == "str":
        return len(v) == 3 and isinstance(v[1], str)
    return t[0] == "none" or len(v) == 2 and v[1] in specs.VERSION_SPECS[1:]


def c22(s, ui):
    declared = Declared(STUB.read_text())
    calls = {c[0]: c for c in declared.calls if all(typable(p[2]) for p in c[2])}
    skipped = declared.skipped + [c[0] for c in declared.calls if c[0] not in calls]

    exported = getattr(ui, "__all__", [n for n in vars(ui) if not n.startswith("_")] + ["__version__"])

    def check_name(case):
        if case[0] == "exported":
            if case[1] not in {p[0] for p in declared.names}:
                return f"{case[1]} is exported but not declared"
            return None
        if case[0] == "member":
            public = {n for n in vars(ui.UnicodeVersion) if not n.startswith("_")}
            return f"members that are not declared: {sorted(public - declared.members['UnicodeVersion'])}" if public - declared.members.get("UnicodeVersion", set()) else None
        path = case[1]
        if resolve(ui, path) is MISSING:
            return f"{'.'.join(path)} is declared and does not exist"
        if len(path) == 1 and path[0] not in exported:
            return f"{path[0]} is declared and not exported"
        return None

    def check_attribute(case):
        for path, t in declared.attributes:
            if path == case:
                m = misfit(ui, resolve(ui, path), t)
                return f"{'.'.join(path)}: {m}" if m else None
        raise CheckError(case)

    def check_call(case):
        if case.get("call") not in calls:
            raise CheckError(f"no such call: {case}")
        name, how, rows, returns = calls[case["call"]]
        by_name = {p[0]: p for p in rows}
        positional = [p for p in rows if p[1] != "keyword"][: case["positional"]]
        given = case["arguments"]
        if any(n not in by_name or not fits(v, by_name[n][2]) for n, v in given.items()) or any(p[3] and p[0] not in given for p in rows):
            raise CheckError(f"not well typed: {case}")
        if any(p[0] not in given for p in positional) or any(p[1] == "positional" and p[0] in given and p not in positional for p in rows):
            raise CheckError(f"not well formed: {case}")
        path = name.split("#")[0].split(".")
        if how == "class":
            target = resolve(ui, path[:1])
        elif how in ("function", "static"):
            target = resolve(ui, path)
        else:
            target = getattr(version_arg(ui, case["self"]), path[-1])
        args = [build(ui, given[p[0]]) for p in positional]
        kwargs = {n: build(ui, v) for n, v in given.items() if n not in {p[0] for p in positional}}
        if how == "property":
            kind, got = "ok", target
        else:
            kind, got = outcome(target, *args, **kwargs)
        if kind == "raised":
            if isinstance(got, REFUSALS):
                return None
            return f"{case}: a well-typed call raised {got!r:.300}"
        m = misfit(ui, got, returns)
        return f"{case}: returned {m}" if m else None

    def rand_call(rng):
        name, how, rows, _ = rng.choice(weighted)
        given = {}
        for p in rows:
            if p[3] or rng.randrange(3):
                given[p[0]] = rand_value(rng, p[2])
        # A positional argument needs those before it.
        order = [p for p in rows if p[1] != "keyword"]
        most = 0
        while most < len(order) and order[most][0] in given:
            most += 1
        least = sum(p[1] == "positional" for p in order)
        for p in order[:least]:
            given.setdefault(p[0], rand_value(rng, p[2]))
        items = list(given.items())
        rng.shuffle(items)
        case = {"call": name, "arguments": dict(items), "positional": rng.randrange(least, max(most, least) + 1)}
        if how in ("method", "property"):
            case["self"] = rng.choice(specs.VERSION_SPECS[1:])
        return case

    weighted = [c for c in calls.values() for _ in range(1 + 3 * len(c[2]))]
    s.sweep("names", [["exported", n] for n in exported] + [["member"]] + [["declared", p] for p in declared.names], check_name)
    s.sweep("attributes", [p for p, _ in declared.attributes], check_attribute)
    if weighted:
        s.bulk("calls", 400_000, rand_call, check_call, lambda c: (True, (c["call"], "by position") if c["positional"] else (c["call"],)))
    return {
        "rule": "Calls built from the declared signatures in the type stubs, with values of the declared types, valid or not, every "
                "form of iterable, by keyword and by position, with optional arguments left out. Every case counts.",
        "assumptions": ["a bare str, though a type checker takes it for an iterable of strings, is refused by design",
                        *(f"not understood, left out: {x}" for x in skipped)],
    }
