#!/usr/bin/env python3
"""Writes mc/data/norm.txt: what the letters of every Unicode character are, computed with Python's
own Unicode data (an implementation and a copy of the data independent of the crate the code uses).
Lines: first-last (hex), tab, letters; characters that are not listed are one punctuation mark."""
import unicodedata as u, os, subprocess
out = []
def letters(c):
    s = ""
    for x in u.normalize("NFKD", c):
        if u.category(x)[0] == "M":
            continue
        x = {"æ": "ae", "Æ": "ae", "œ": "oe", "Œ": "oe"}.get(x, x)
        for y in x.upper().lower():
            s += y if "a" <= y <= "z" else "_" if y in " _" else "'"
    return s
run = None
for cp in range(0x110000):
    if 0xD800 <= cp <= 0xDFFF:
        continue
    s = letters(chr(cp))
    if run and run[2] == s and run[1] == cp - 1:
        run[1] = cp
    else:
        if run and run[2] != "'":
            out.append(run)
        run = [cp, cp, s]
if run[2] != "'":
    out.append(run)
# characters that are assigned after Unicode 13 are left open: "?"
new = subprocess.run(["perl", "-e", r'for my $c (0..0x10ffff) { next if $c >= 0xd800 && $c <= 0xdfff; my $s = chr $c; print "$c\n" if $s !~ /\p{Present_In: 13.0}/ && $s !~ /\p{Noncharacter_Code_Point}|\p{Co}/; }'],
                     check=True, capture_output=True, text=True).stdout.split()
new = [int(x) for x in new if u.category(chr(int(x))) != 'Cn']
known = {}
for a, b, s in out:
    for c in range(a, b + 1):
        known[c] = s
for c in new:
    known[c] = "?"
out = []
for c in sorted(known):
    if out and out[-1][1] == c - 1 and out[-1][2] == known[c]:
        out[-1][1] = c
    else:
        out.append([c, c, known[c]])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc/data/norm.txt")
with open(p, "w") as f:
    f.write("# Unicode %s\n" % u.unidata_version)
    for a, b, s in out:
        f.write("%x-%x\t%s\n" % (a, b, s))
print(len(out), len(set(r[2] for r in out)))
