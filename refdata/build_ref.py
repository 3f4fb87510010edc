#!/usr/bin/env python3
"""Rebuilds refdata/gc.txt from Unicode implementations that have nothing to do with /repo.

Not run by any check (they read the committed gc.txt); kept so that the provenance of the
reference data can be replayed.  Sources:
  * 12.1 .. 17.0 : per-version general-category masks shipped with crosshair-tool
  * 9.0 .. 12.0  : the 12.1 categories restricted to the code points assigned in that version
                   (golang.org/x/text/unicode/rangetable, generated from DerivedAge), with the
                   general-category changes the UCD made between those versions undone (CHANGES).
Cross-checks (must agree on every code point):
  * 15.0 : CPython unicodedata;   * 13.0 : Java Character.getType
  * 17.0 : node (ICU 78);         * 16.0 : regex-syntax tables
  * 17.0 and 15.0 : Go unicode tables (go1.27, go1.23)
"""
import glob, json, os, re, subprocess, sys, tempfile, unicodedata

N = 0x110000
CROSS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/crosshair/unicode_data/"
XTEXT = "/root/go/pkg/mod/golang.org/x/text@v0.8.0/unicode/rangetable/"
OLD = ["9.0.0", "10.0.0", "11.0.0", "12.0.0"]
NEW = ["12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"]

# (first version carrying the new value, code point, value before, value from then on)
CHANGES = [("11.0.0", c, "Lo", "Ll") for c in [*range(0x10D0, 0x10FB), *range(0x10FD, 0x1100)]] + [
    ("11.0.0", 0x111C9, "Po", "Mn"),
    ("11.0.0", 0x11A07, "Mc", "Mn"),
    ("11.0.0", 0x11A08, "Mc", "Mn"),
    ("12.0.0", 0x166D, "Po", "So"),
    ("12.0.0", 0x1CF2, "Mc", "Lo"),
    ("12.0.0", 0x1CF3, "Mc", "Lo"),
    ("12.0.0", 0xA9BD, "Mc", "Mn"),
]


def key(v):
    return tuple(map(int, v.split(".")))


def crosshair(v):
    gc = [None] * N
    for name, deltas in json.load(open(CROSS + v + ".json"))["categories"].items():
        pos = 0
        it = iter(deltas)
        for skip, length in zip(it, it):
            pos += skip
            for c in range(pos, pos + length):
                assert gc[c] is None
                gc[c] = name
            pos += length
    assert None not in gc
    return gc


def assigned(v):
    """x/text 'assigned' = everything with an Age in version v."""
    text = open(XTEXT + f"tables{v}.go").read()
    body = re.search(r"var assigned%s = &unicode.RangeTable\{(.*?)\n\}" % v.replace(".", "_"), text, re.S).group(1)
    out = set()
    for a, b, s in re.findall(r"\{(0x[0-9a-f]+), (0x[0-9a-f]+), (\d+)\}", body):
        out.update(range(int(a, 16), int(b, 16) + 1, int(s)))
    return out


def old(v, base):
    have = assigned(v)
    # noncharacters have an Age too but stay Cn; surrogates and private use are in DerivedAge.
    gc = [base[c] if c in have or base[c] in ("Cs", "Co") else "Cn" for c in range(N)]
    for since, c, before, after in CHANGES:
        if key(v) < key(since) and gc[c] != "Cn":
            assert gc[c] == after, (v, hex(c), gc[c])
            gc[c] = before
    return gc


def diff(a, b):
    return [(hex(i), x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y]


def java():
    d = tempfile.mkdtemp()
    open(d + "/G.java", "w").write(
        "public class G{public static void main(String[] a){StringBuilder s=new StringBuilder();"
        "for(int i=0;i<0x110000;i++)s.append(Character.getType(i)).append('\\n');System.out.print(s);}}"
    )
    out = subprocess.run(["java", d + "/G.java"], capture_output=True, text=True, check=True).stdout.split()
    m = {0: "Cn", 1: "Lu", 2: "Ll", 3: "Lt", 4: "Lm", 5: "Lo", 6: "Mn", 7: "Me", 8: "Mc", 9: "Nd", 10: "Nl", 11: "No",
         12: "Zs", 13: "Zl", 14: "Zp", 15: "Cc", 16: "Cf", 18: "Co", 19: "Cs", 20: "Pd", 21: "Ps", 22: "Pe", 23: "Pc",
         24: "Po", 25: "Sm", 26: "Sc", 27: "Sk", 28: "So", 29: "Pi", 30: "Pf"}
    return [m[int(x)] for x in out]


def node():
    cats = sorted(set(crosshair("17.0.0")))
    js = (
        "const cats=%s.map(c=>[c,new RegExp('^\\\\p{gc='+c+'}$','u')]);let o=[];"
        "for(let i=0;i<0x110000;i++){const s=String.fromCodePoint(i);let f='??';"
        "for(const [c,r] of cats){if(r.test(s)){f=c;break}}o.push(f)}console.log(process.versions.unicode);console.log(o.join(' '))"
    ) % json.dumps(cats)
    ver, data = subprocess.run(["node", "-e", js], capture_output=True, text=True, check=True).stdout.split("\n")[:2]
    assert ver == "17.0", ver
    return data.split()


def go(root):
    d = tempfile.mkdtemp()
    open(d + "/m.go", "w").write(
        'package main\nimport ("fmt";"unicode";"bufio";"os")\nfunc main(){w:=bufio.NewWriter(os.Stdout);defer w.Flush()\n'
        "fmt.Fprintln(w,unicode.Version)\nfor r:=rune(0);r<0x110000;r++{f:=\"Cn\"\nfor n,t:=range unicode.Categories{"
        "if len(n)==2&&n!=\"LC\"&&n!=\"Cn\"&&unicode.Is(t,r){f=n}}\nfmt.Fprintln(w,f)}}\n"
    )
    env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOROOT=root, GO111MODULE="off")
    out = subprocess.run([root + "/bin/go", "run", d + "/m.go"], capture_output=True, text=True, check=True, env=env).stdout.split()
    return out[0], out[1:]


def regex_syntax():
    path = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/regex-syntax-0.8.11/src/unicode_tables/general_category.rs"))[0]
    text = open(path).read()
    long = dict(
        zip("Close_Punctuation Connector_Punctuation Control Currency_Symbol Dash_Punctuation Decimal_Number Enclosing_Mark Final_Punctuation Format Initial_Punctuation Letter_Number Line_Separator Lowercase_Letter Math_Symbol Modifier_Letter Modifier_Symbol Nonspacing_Mark Open_Punctuation Other_Letter Other_Number Other_Punctuation Other_Symbol Paragraph_Separator Private_Use Space_Separator Spacing_Mark Titlecase_Letter Unassigned Uppercase_Letter".upper().split(),
            "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Lt Cn Lu".split()))
    gc = ["Cs" if 0xD800 <= c <= 0xDFFF else None for c in range(N)]
    for ident, body in re.findall(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", text, re.S):
        if ident not in long:
            continue
        lit = r"'(\\u\{[0-9a-f]+\}|\\.|[^\\'])'"
        for a, b in re.findall(r"\(\s*%s,\s*%s,?\s*\)" % (lit, lit), body):
            f = lambda s: int(s[3:-1], 16) if s.startswith("\\u{") else ord({"\\'": "'", "\\\\": "\\", "\\t": "\t", "\\n": "\n", "\\r": "\r", "\\0": "\0"}.get(s, s))
            for c in range(f(a), f(b) + 1):
                assert gc[c] is None, (hex(c), ident)
                gc[c] = long[ident]
    return gc


def main():
    ref = {v: crosshair(v) for v in NEW}
    for v in OLD:
        ref[v] = old(v, ref["12.1.0"])
    checks = {
        "15.0.0 CPython": (ref["15.0.0"], [unicodedata.category(chr(c)) for c in range(N)] if unicodedata.unidata_version == "15.0.0" else None),
        "13.0.0 Java": (ref["13.0.0"], java()),
        "17.0.0 node": (ref["17.0.0"], node()),
        "16.0.0 regex-syntax": (ref["16.0.0"], regex_syntax()),
    }
    for root in ("/usr/local/go", "/opt/veriftools/go1.23.12"):
        ver, data = go(root)
        checks[f"{ver} go"] = (ref[ver], data)
    for name, (a, b) in checks.items():
        d = diff(a, b)
        print(name, "differences:", len(d), d[:10])
        assert not d
    lines = ["# Unicode general category, run-length coded: version line, then 'start(hex) category' per maximal run\n"]
    for v in OLD + NEW:
        lines.append(f"@{v}\n")
        prev = None
        for c, g in enumerate(ref[v]):
            if g != prev:
                lines.append(f"{c:x} {g}\n")
                prev = g
    here = os.path.dirname(os.path.abspath(__file__))
    open(os.path.join(here, "gc.txt"), "w").writelines(lines)
    if "--compare" in sys.argv:  # informational: the tree under test against the reference
        for v in OLD + NEW:
            print(v, "tree vs reference:", diff(tree(v), ref[v])[:10])


def tree(v):
    text = open(f'/repo/crates/unicode-intervals/src/tables/v{v.replace(".", "_")}.rs').read()
    order = re.search(r"BY_NAME.*?&\[\n(.*?)\];", text, re.S).group(1).replace(",", " ").split()
    names = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
    gc = [None] * N
    for name, ident in zip(names, order):
        body = re.search(r"pub const %s: [^=]*=\s*&\[(.*?)\];" % ident, text, re.S).group(1)
        for a, b in re.findall(r"\((\d+), (\d+)\)", body):
            for c in range(int(a), int(b) + 1):
                assert gc[c] is None
                gc[c] = name
    return gc


if __name__ == "__main__":
    main()
