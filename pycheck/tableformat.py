"""The upstream generator's table format: written here, and read back after the transformation."""
import re

FULL = {
    "Pe": "Close_Punctuation", "Pc": "Connector_Punctuation", "Cc": "Control", "Sc": "Currency_Symbol",
    "Pd": "Dash_Punctuation", "Nd": "Decimal_Number", "Me": "Enclosing_Mark", "Pf": "Final_Punctuation",
    "Cf": "Format", "Pi": "Initial_Punctuation", "Nl": "Letter_Number", "Zl": "Line_Separator",
    "Ll": "Lowercase_Letter", "Sm": "Math_Symbol", "Lm": "Modifier_Letter", "Sk": "Modifier_Symbol",
    "Mn": "Nonspacing_Mark", "Ps": "Open_Punctuation", "Lo": "Other_Letter", "No": "Other_Number",
    "Po": "Other_Punctuation", "So": "Other_Symbol", "Zp": "Paragraph_Separator", "Co": "Private_Use",
    "Zs": "Space_Separator", "Mc": "Spacing_Mark", "Cs": "Surrogate", "Lt": "Titlecase_Letter",
    "Cn": "Unassigned", "Lu": "Uppercase_Letter",
}
AGGREGATES = {
    "Separator": ("Zl", "Zp", "Zs"), "Symbol": ("Sc", "Sk", "Sm", "So"), "Cased_Letter": ("Ll", "Lt", "Lu"),
    "Letter": ("Ll", "Lm", "Lo", "Lt", "Lu"), "Mark": ("Mc", "Me", "Mn"), "Number": ("Nd", "Nl", "No"),
    "Other": ("Cc", "Cf", "Cn", "Co", "Cs"), "Punctuation": ("Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps"),
}
MAX = 0x10FFFF


def _wrapped(items, columns):
    out, line = [], " "
    for item in items:
        if len(line) + 1 + len(item) > columns and line != " ":
            out.append(line)
            line = " "
        line += " " + item
    if line != " ":
        out.append(line)
    return out


def coalesce(intervals):
    out = []
    for lo, hi in sorted(intervals):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


def emit(assignment, version, arguments, exclude=tuple(AGGREGATES), columns=79, tool="0.2.15"):
    """`assignment`: abbreviation -> list of intervals."""
    tables = {FULL[c]: list(x) for c, x in assignment.items()}
    for name, parts in AGGREGATES.items():
        tables[name] = coalesce([i for c in parts for i in assignment[c]])
    names = sorted(n for n in tables if n not in exclude)
    lines = [
        "// DO NOT EDIT THIS FILE. IT WAS AUTOMATICALLY GENERATED BY:", "//", f"//   ucd-generate {arguments}", "//",
        f"// Unicode version: {version}.", "//", f"// ucd-generate {tool} is available on crates.io.", "",
        "pub const BY_NAME: &'static [(&'static str, &'static [(u32, u32)])] = &[",
        *_wrapped([f'("{n}", {n.upper()}),' for n in names], columns), "];",
    ]
    for n in names:
        lines += ["", f"pub const {n.upper()}: &'static [(u32, u32)] = &["]
        lines += _wrapped([f"({a}, {b})," for a, b in tables[n]], columns)
        lines.append("];")
    return "\n".join(lines) + "\n"


def ucd_text(assignment, version):
    """DerivedGeneralCategory.txt in brief: Cn is what no line mentions."""
    lines = [f"# DerivedGeneralCategory-{version}.txt"]
    for c, intervals in assignment.items():
        if c != "Cn":
            lines += [f"{a:04X}..{b:04X} ; {c}" if a != b else f"{a:04X} ; {c}" for a, b in intervals]
    return "\n".join(lines) + "\n"


def read_ucd(text):
    version = re.match(r"# DerivedGeneralCategory-(.*)\.txt", text).group(1)
    assignment = {c: [] for c in FULL}
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if line:
            span, c = line.split(";")
            a, _, b = span.strip().partition("..")
            assignment[c.strip()].append((int(a, 16), int(b or a, 16)))
    at = 0
    for a, b in sorted(i for x in assignment.values() for i in x):
        if a > at:
            assignment["Cn"].append((at, a - 1))
        at = b + 1
    if at <= MAX:
        assignment["Cn"].append((at, MAX))
    return version, assignment


def read_module(text):
    """(header lines, names in BY_NAME, name -> intervals), or ValueError."""
    consts = re.split(r"(?m)^pub const ", text)
    header = consts[0].splitlines()
    names, tables = None, {}
    for body in consts[1:]:
        m = re.fullmatch(r"(?s)(\w+): (.*?) = &\[\s*(.*?)\s*\];\s*", body)
        if not m:
            raise ValueError(f"not a constant: {body[:120]!r}")
        name, kind, content = m.groups()
        if name == "BY_NAME":
            if kind != "&'static [&'static [(u32, u32)]]":
                raise ValueError(f"BY_NAME has type {kind}")
            if names is not None:
                raise ValueError("BY_NAME twice")
            if not re.fullmatch(r"(\w+\s*,\s*)*(\w+)?", content):
                raise ValueError(f"BY_NAME holds something else than names: {content[:200]!r}")
            names = re.findall(r"\w+", content)
        else:
            if kind != "&'static [(u32, u32)]":
                raise ValueError(f"{name} has type {kind}")
            if not re.fullmatch(r"(\(\d+,\s*\d+\)\s*,\s*)*(\(\d+,\s*\d+\))?", content):
                raise ValueError(f"{name} holds something else than intervals: {content[:200]!r}")
            if name in tables:
                raise ValueError(f"{name} twice")
            tables[name] = [(int(a), int(b)) for a, b in re.findall(r"\((\d+),\s*(\d+)\)", content)]
    if names is None:
        raise ValueError("no BY_NAME")
    return header, names, tables
