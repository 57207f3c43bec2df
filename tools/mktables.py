"""Writes spec/Tables.tla: fixed point (Q20 / Q24) tables of the irrational
constants the specification needs.  Computed with mpmath-free high precision
integer arithmetic (decimal) so that the last unit is right."""
from decimal import Decimal as D, getcontext
import os
getcontext().prec = 50
def arctan_inv(x):
    t = s = D(1) / x; n = 1; x2 = x * x; sgn = -1
    while abs(t) > D(10) ** -48:
        t /= x2; n += 2; s += sgn * t / n; sgn = -sgn
    return s
PI = 4 * (4 * arctan_inv(D(5)) - arctan_inv(D(239)))
def sin(x):
    x = x % (2 * PI)
    s = t = x; n = 1
    while abs(t) > D(10) ** -45:
        t *= -x * x / ((n + 1) * (n + 2)); n += 2; s += t
    return s
def cos(x): return sin(x + PI / 2)
def rnd(x): return int(x.to_integral_value(rounding="ROUND_HALF_EVEN"))
Q20, Q24 = D(2) ** 20, D(2) ** 24
def seq(xs): return "<<" + ", ".join(str(x) for x in xs) + ">>"
def wrap(s, n=76):
    out, line = [], ""
    for tok in s.split(" "):
        if len(line) + len(tok) > n: out.append(line); line = ""
        line += tok + " "
    out.append(line); return "\n   ".join(out)
L = ["------------------------------- MODULE Tables -------------------------------",
 "(* Generated by tools/mktables.py: fixed point constants. *)", "EXTENDS Integers, Sequences", ""]
WM = 12
L.append("\\* SinRamp[w][j + 1] = 2^30 sin(pi/2 * j / w), 0 <= j < w")
L.append("SinRamp == <<\n   " + ",\n   ".join(wrap(seq(rnd(D(2) ** 30 * sin(PI / 2 * j / w)) for j in range(w))) for w in range(1, WM + 1)) + ">>")
L.append("\\* SinOverPi[k + 1] = 2^29 sin(pi * k / 24) / pi, 0 <= k <= 24")
L.append("SinOverPi == " + wrap(seq(rnd(D(2) ** 29 * sin(PI * k / 24) / PI) for k in range(25))))
L.append("\\* CosQ[k + 1] = 2^20 cos(pi/2 * k / 24), 0 <= k <= 48")
L.append("CosQ == " + wrap(seq(rnd(Q20 * cos(PI / 2 * k / 24)) for k in range(49))))
def pesk(k):
    r = D(k) / 24
    if r >= 2: return D(0)
    if r < 1: return (3 - 2 * r + (1 + 4 * r - 4 * r * r).sqrt()) / 8
    return (5 - 2 * r - (-7 + 12 * r - 4 * r * r).sqrt()) / 8
L.append("\\* PeskinQ[k + 1] = 2^20 phi(k / 24), Peskin's four point kernel")
L.append("PeskinQ == " + wrap(seq(rnd(Q20 * pesk(k)) for k in range(49))))
L.append("\\* Cos5040[k + 1] = 2^20 cos(2 pi k / 5040)")
cq = [cos(2 * PI * k / 5040) for k in range(1261)]
full = [rnd(Q20 * cq[k]) for k in range(1261)]
full = [full[k] if k <= 1260 else -full[2520 - k] if k <= 2520 else -full[k - 2520] if k <= 3780 else full[5040 - k] for k in range(5040)]
L.append("Cos5040 == " + wrap(seq(full)))
DM2, DM3 = 2000, 1000
L.append("\\* LogG[s] = 2^20 ln(s) / (4 pi), s = squared distance in cells")
L.append("LogG == " + wrap(seq(rnd(Q20 * D(s).ln() / (4 * PI)) for s in range(1, DM2 + 1))))
L.append("\\* Ln2G26 = 2^26 ln 2 / (2 pi)")
L.append("Ln2G26 == " + str(rnd(D(2) ** 26 * D(2).ln() / (2 * PI))))
L.append("\\* Reg2 = 2^20 * (1 + ln pi) / (4 pi): regularised value at distance 0 for dx = 1")
L.append("Reg2 == " + str(rnd(Q20 * (1 + PI.ln()) / (4 * PI))))
L.append("\\* InvG[s] = 2^20 / (4 pi sqrt(s))")
L.append("InvG == " + wrap(seq(rnd(Q20 / (4 * PI * D(s).sqrt())) for s in range(1, DM3 + 1))))
Q28 = D(2) ** 28
Q30 = D(2) ** 30
L.append("\\* kernels of the immersed boundary at 2^30")
L.append("KerC30 == " + wrap(seq(rnd(2 * Q30 * (1 + cos(PI / 2 * k / 24)) / 4) for k in range(49))))
L.append("KerP30 == " + wrap(seq(rnd(2 * Q30 * pesk(k)) for k in range(49))))
L.append("\\* the same at 2^28")
L.append("LogG28 == " + wrap(seq(rnd(Q28 * D(s).ln() / (4 * PI)) for s in range(1, DM2 + 1))))
L.append("Ln2G28 == " + str(rnd(Q28 * D(2).ln() / (2 * PI))))
L.append("Reg28 == " + str(rnd(Q28 * (1 + PI.ln()) / (4 * PI))))
L.append("InvG32 == " + wrap(seq(rnd(D(2) ** 32 / (4 * PI * D(s).sqrt())) for s in range(1, DM3 + 1))))
full = [rnd(Q28 * cq[k]) for k in range(1261)]
full = [full[k] if k <= 1260 else -full[2520 - k] if k <= 2520 else -full[k - 2520] if k <= 3780 else full[5040 - k] for k in range(5040)]
L.append("Cos28 == " + wrap(seq(full)))
L.append("=============================================================================")
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Tables.tla"), "w").write("\n".join(L) + "\n")
