#!/usr/bin/env python3
"""Writes harness/unicode.go: the canonical compositions of letters with the
combining marks of the seven TeX accents, from Python's Unicode database."""
import os, subprocess, unicodedata
marks = {"'": 0x301, "`": 0x300, "^": 0x302, '"': 0x308, "~": 0x303, "c": 0x327, ".": 0x307}
inv = {v: k for k, v in marks.items()}
rows = []
for cp in range(0x110000):
    c = chr(cp)
    d = unicodedata.decomposition(c)
    if not d or d.startswith("<"):
        continue
    parts = [int(x, 16) for x in d.split()]
    if len(parts) == 2 and parts[1] in inv and unicodedata.normalize("NFC", c) == c:
        rows.append((inv[parts[1]], parts[0], cp))
rows.sort()
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "unicode.go")
with open(out, "w") as f:
    f.write("package main\n\n// Made by tools/mkaccents.py.\n\n")
    f.write("type accentKey struct {\n\tmark byte\n\tbase rune\n}\n\n")
    f.write("// compositions maps an accent and a letter to the letter whose canonical\n// decomposition is the letter and the accent's combining mark.\n")
    f.write("var compositions = map[accentKey]rune{\n")
    for m, b, c in rows:
        q = "'\\\''" if m == "'" else "'" + m + "'"
        f.write("\t{%s, 0x%04X}: 0x%04X, // %s\n" % (q, b, c, chr(c)))
    f.write("}\n")
subprocess.run(["gofmt", "-w", out], check=True)
