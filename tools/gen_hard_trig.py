#!/usr/bin/env python3-vt
"""Writes src/hard_trig.hpp: for every binade of double the arguments closest to multiples of pi/4 (continued fractions)."""
import os, struct
from mpmath import mp, mpf, pi, floor
mp.prec = 2600
def hard(unit, bits, emin, emax, keepn):
    """doubles (or floats) of every binade closest to multiples of unit"""
    out = set()
    for e in range(emin, emax + 1):
        sh = e - (bits - 1)
        a = mpf(2) ** sh / unit
        x = a; p0, q0, p1, q1 = 0, 1, 1, 0
        cands = []
        for _ in range(2000):
            k = int(floor(x)); p2, q2 = k * p1 + p0, k * q1 + q0
            # the last semiconvergents before each convergent are nearly as close
            for j in (k - 1, k - 2):
                if j > 0 and j * q1 + q0 < 2 ** bits: cands.append(j * q1 + q0)
            if q2 >= 2 ** bits:
                j = (2 ** bits - 1 - q0) // q1
                if j > 0: cands.append(j * q1 + q0)
                break
            cands.append(q2); p0, q0, p1, q1 = p1, q1, p2, q2
            f = x - k
            if f == 0: break
            x = 1 / f
        res = set(); lo = 2 ** (bits - 1)
        for q in cands[-keepn:]:
            if q <= 0: continue
            m = q
            while m * 2 < 2 ** bits: m *= 2
            if m >= lo: res.add(m)
            j = (lo + q - 1) // q
            while j * q < 2 ** bits and j < (lo + q - 1) // q + 2: res.add(j * q); j += 1
        for m in sorted(res): out.add(float(m) * 2.0 ** sh)
    return out
out = [struct.unpack(">Q", struct.pack(">d", x))[0] for x in sorted(hard(pi / 2, 53, -2, 1023, 7) | hard(pi / 4, 53, -2, 1023, 3))]
outf = [struct.unpack(">I", struct.pack(">f", x))[0] for x in sorted(hard(pi / 2, 24, -2, 127, 8) | hard(pi / 4, 24, -2, 127, 4))]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "src", "hard_trig.hpp")
with open(p, "w") as f:
    f.write("// generated by tools/gen_hard_trig.py: doubles and floats closest to multiples of pi/2 and pi/4, every binade\n#pragma once\nstatic const unsigned long long HARD_TRIG[] = {\n")
    for i in range(0, len(out), 8): f.write(",".join("0x%x" % v for v in out[i:i + 8]) + ",\n")
    f.write("};\nstatic const unsigned HARD_TRIGF[] = {\n")
    for i in range(0, len(outf), 8): f.write(",".join("0x%x" % v for v in outf[i:i + 8]) + ",\n")
    f.write("};\n")
print(len(out), len(outf))
