#!/bin/bash
# proptest.sh <dir>: a copy of proptest whose pass-through source of randomness serves a fuzzer.
# Two changes: a forked generator (proptest forks one for every alternative it does not take) reads
# the same bytes instead of taking half of them away, and a source that is used up does not answer
# zero, which some of the generators refuse for ever, but with the next smallest thing.
set -e
dir="$1"
if [ -f "$dir/.done" ]; then exit 0; fi
rm -rf "$dir.tmp"
mkdir -p "$dir.tmp"
tar xzf "${CARGO_HOME:-$HOME/.cargo}"/registry/cache/*/proptest-1.12.0.crate -C "$dir.tmp" --strip-components=1
python3 - "$dir.tmp/src/test_runner/rng.rs" <<'P'
import sys
path = sys.argv[1]
text = open(path).read()
for old, new in [
    ("                let len = *end - *off;\n                let child_start = *off + len / 2;\n"
     "                let child_end = *off + len;\n                *end = child_start;\n",
     "                let (child_start, child_end) = (*off, *end);\n"),
    ("                ref mut off,\n                ref mut end,\n                ref data,",
     "                ref off,\n                ref end,\n                ref data,"),
    ("                    dest[i] = 0;\n", "                    dest[i] = 1;\n"),
]:
    assert text.count(old) == 1, old
    text = text.replace(old, new)
open(path, "w").write(text)
P
touch "$dir.tmp/.done"
rm -rf "$dir"
mv "$dir.tmp" "$dir"
