#!/usr/bin/env python3
"""Generates mc/src/lits.rs: literal forms of the macros with the value each denotes (or a panic)."""
import itertools, os
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
rows, seen = [], set()
def val(s, r):
    if s == "" or not 2 <= r <= 36:
        return None
    v = 0
    for ch in s:
        d = DIG.find(ch.lower())
        if d < 0 or d >= r:
            return None
        v = v * r + d
    return v
def prefixed(s):
    for p, r in (("0b", 2), ("0o", 8), ("0x", 16)):
        if s.startswith(p):
            return val(s[2:], r)
    return val(s, 10)
def row(tokens, v):
    if tokens not in seen:
        seen.add(tokens)
        rows.append((tokens, v))
def text(v, r):
    s = ""
    while v:
        s = DIG[v % r] + s
        v //= r
    return s or "0"
near = sorted({max(0, (1 << k) + d) for k in (0, 1, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 79, 80, 95, 96, 112, 127, 128) for d in (-1, 0, 1)})
far = near + [(1 << k) + d for k in (129, 160, 192, 255, 256, 320, 500) for d in (-1, 0, 1)] + [0x123456789abcdef0fedcba9876543210 << 100]
# Numeric literals.
for v in near:
    if v < 1 << 128:
        for t in (str(v), hex(v), oct(v), bin(v), "0x" + hex(v)[2:].upper(), str(v) + "u128", hex(v) + "_u128", "0x0_" + hex(v)[2:], "00" + str(v)):
            row(t, v)
        s = str(v)
        row("_".join(s[i:i + 3] for i in range(0, len(s), 3)), v)
        row(s + "_", v)
# After an underscore.
for v in far:
    for t in (str(v), hex(v), oct(v), bin(v), "0x" + hex(v)[2:].upper(), "000" + str(v), "0x00" + hex(v)[2:]):
        row("_" + t, v)
for n in (1, 2, 3):
    for t in itertools.product("0179afxbo" if n < 3 else "01axb", repeat=n):
        s = "".join(t)
        row("_" + s, prefixed(s))
        if s[0] not in "0179":
            row(s, prefixed(s))
for s in ("0x", "0b2", "0o8", "0xg", "0X1f", "0B11", "1_0", "_1", "0b", "0x_1", "0xffu128", "12u8", "1e5"):
    row("_" + s, prefixed(s))
# Any base.
for r in range(2, 37):
    al = sorted({DIG[0], DIG[1], DIG[r - 1], DIG[r // 2], DIG[min(r, 35)]})
    for n in (1, 2, 3):
        for t in itertools.product(al, repeat=n):
            s = "".join(t)
            if n == 3 and r not in (2, 10, 16, 36):
                continue
            row("_%s base %d" % (s, r), val(s, r))
            if s[0].isalpha():
                row("%s base %d" % (s, r), val(s, r))
            elif s.isdigit():
                row("%s base %d" % (s, r), val(s, r))
    for v in far[::7] + [far[-1], r ** 12, r ** 40 - 1, r ** 41]:
        s = text(v, r)
        row("_%s base %d" % (s, r), v)
        row("_%s base %d" % (s.upper(), r), v)
        if s[0].isalpha():
            row("%s base %d" % (s.upper(), r), v)
    row("_1_0 base %d" % r, None)
    row("__1 base %d" % r, None)
    row("1_0 base %d" % r, None)
for w in ("as", "do", "if", "in", "fn", "let", "self", "true", "false", "match", "crate"):
    row(w + " base 36", val(w, 36))
    row(w + " base 12", val(w, 12))
for b, r in (("0x10", 16), ("0b1000", 8), ("1_0", 10), ("36u32", 36), ("0", 0), ("1", 1), ("37", 37), ("0xffffffff", 2 ** 32 - 1), ("256", 256), ("258", 258)):
    row("_11 base " + b, val("11", r))
    row("10 base " + b, val("10", r))
# 0b... and 0x... numeric literals in another base are read as their text.
row("0b1 base 16", 0xb1)
row("0b10 base 32", 11 * 32 * 32 + 32)
row("0x1 base 36", 33 * 36 + 1)
row("0o7 base 36", 24 * 36 + 7)
row("0b1 base 2", None)
out = ["// Generated by tools/lits.py; do not edit.", "pub type Row = (&'static str, Option<&'static str>, fn() -> UBig, Option<(fn() -> IBig, fn() -> IBig)>);"]
n = k2 = 0
for k in range(0, len(rows), 150):
    out.append("pub static PART%d: &[Row] = &[" % n)
    for t, v in rows[k:k + 150]:
        e = "None" if v is None else 'Some("%x")' % v
        # The signed forms of every short row and of every third other.
        if len(t) < 4 or k2 % 3 == 0:
            out.append('    ("%s", %s, || ubig!(%s), Some((|| ibig!(%s), || ibig!(-%s)))),' % (t, e, t, t, t))
        else:
            out.append('    ("%s", %s, || ubig!(%s), None),' % (t, e, t))
        k2 += 1
    out.append("];")
    n += 1
out.append("pub static PARTS: [&[Row]; %d] = [%s];" % (n, ", ".join("PART%d" % k for k in range(n))))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "src", "bin", "c29", "lits.rs")
os.makedirs(os.path.dirname(p), exist_ok=True)
open(p, "w").write("\n".join(out) + "\n")
print(len(rows), "rows")
