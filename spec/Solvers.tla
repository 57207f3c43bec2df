------------------------------ MODULE Solvers ------------------------------
(***************************************************************************)
(* The global solvers, as functions or relations on whole fields.          *)
(*                                                                         *)
(* Unbounded Poisson (C16): the solution is the sum over all sources of    *)
(* source times Green's function of the distance in cells times the cell   *)
(* volume.  In units of dx^2: 3D needs no dx at all, 2D only ln dx.  The   *)
(* spacing is dx = (m/n) 2^k.  Values are in units of 2^-20.               *)
(* Neumann Poisson (C17): a relation between right-hand side and solution. *)
(* Fourier transforms (C18): the double sum with cosines in units of 2^-20.*)
(***************************************************************************)
EXTENDS Grid, Tables
Q20 == 1048576
Coords(sh) == TLCEval([i \in 1..Cells(sh) |-> [a \in 1..Len(sh) |-> Coord(sh, i, a)]])
Sq(x) == x * x
D2(x, y) == IF Len(x) = 2 THEN Sq(x[1] - y[1]) + Sq(x[2] - y[2])
            ELSE Sq(x[1] - y[1]) + Sq(x[2] - y[2]) + Sq(x[3] - y[3])
\* largest squared distance on the grid
RECURSIVE Far(_, _)
Far(sh, a) == IF a > Len(sh) THEN 0 ELSE Sq(sh[a] - 1) + Far(sh, a + 1)
LnDx(u) == LogG[u.m * u.m] - LogG[u.n * u.n] + (u.k * Ln2G26) \div 64
Green2(u, s) == (IF s = 0 THEN Reg2 ELSE -LogG[s]) - LnDx(u)
Green3(s) == InvG[IF s = 0 THEN 1 ELSE s]
GreenTab(sh, u) == TLCEval([s1 \in 1..(Far(sh, 1) + 1) |-> IF Len(sh) = 2 THEN Green2(u, s1 - 1) ELSE Green3(s1 - 1)])
\* the same in units of 2^-28 (2D) and 2^-32 (3D), for few sources
LnDx28(u) == LogG28[u.m * u.m] - LogG28[u.n * u.n] + u.k * Ln2G28
Green28(d, u, s) == IF d = 3 THEN InvG32[IF s = 0 THEN 1 ELSE s] ELSE (IF s = 0 THEN Reg28 ELSE -LogG28[s]) - LnDx28(u)
Sources(f) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : f[i] # 0)
RECURSIVE Conv(_, _, _, _, _, _)
Conv(g, co, f, src, i, k) == IF k > Len(src) THEN 0
   ELSE f[src[k]] * g[D2(co[i], co[src[k]]) + 1] + Conv(g, co, f, src, i, k + 1)
\* the free-space solution on the grid itself
FreeSpace(sh, u, f) == LET g == GreenTab(sh, u) co == Coords(sh) src == Sources(f)
                       IN TLCEval([i \in 1..Len(f) |-> Conv(g, co, f, src, i, 1)])
FreeSpace28(sh, u, f) == LET co == Coords(sh) src == Sources(f)
     g == TLCEval([s1 \in 1..(Far(sh, 1) + 1) |-> Green28(Len(sh), u, s1 - 1)])
   IN TLCEval([i \in 1..Len(f) |-> Conv(g, co, f, src, i, 1)])
RECURSIVE SumAbs(_, _)
SumAbs(f, k) == IF k > Len(f) THEN 0 ELSE Abs(f[k]) + SumAbs(f, k + 1)
RECURSIVE MaxAbs(_, _)
MaxAbs(f, k) == IF k > Len(f) THEN 0 ELSE Max(Abs(f[k]), MaxAbs(f, k + 1))

\* the negative Laplacian times dx^2 with homogeneous Neumann ends
RECURSIVE NegLapAt(_, _, _, _)
NegLapAt(G, s, i, a) == IF a > G.d THEN 0
   ELSE LET c == Coord(G.sh, i, a) IN
        (IF c > 0 THEN s[i] - s[i - G.st[a]] ELSE 0)
        + (IF c < G.sh[a] - 1 THEN s[i] - s[i + G.st[a]] ELSE 0) + NegLapAt(G, s, i, a + 1)
NegLap(G, s) == Mk(G, LAMBDA i : NegLapAt(G, s, i, 1))
\* |sum of s| <= t, added up in two limbs of base 2^15
RECURSIVE SumWithin(_, _, _, _, _)
SumWithin(s, t, k, hi, lo) == IF k > Len(s)
   THEN LET h == hi + (lo \div 32768) IN Abs(h) < 32768 /\ Abs(h * 32768 + (lo % 32768)) <= t
   ELSE SumWithin(s, t, k + 1, hi + (s[k] \div 32768), lo + (s[k] % 32768))
\* s (in units 1/q of dx^2) solves the Neumann problem for f up to tol and tols
NeumannOK(G, s, f, q, tol, tols) ==
  LET mean == (q * SumSeq(f)) \div G.n  A == NegLap(G, s) IN
  /\ \A i \in 1..G.n : Within32(A[i], q * f[i] - mean, tol)
  /\ SumWithin(s, tols, 1, 0, 0)

\* -------------------------------------------------- Fourier transforms
HalfShape(sh) == [sh EXCEPT ![Len(sh)] = @ \div 2 + 1]
Cs(p) == Cos5040[(p % 5040) + 1]
Sn(p) == Cos5040[((p + 3780) % 5040) + 1]
RECURSIVE Phase(_, _, _, _)
Phase(sh, x, k, a) == IF a > Len(sh) THEN 0 ELSE x[a] * k[a] * (5040 \div sh[a]) + Phase(sh, x, k, a + 1)
RECURSIVE SumPh(_, _, _, _, _, _, _)
\* sum over cells of f * table(phase)
SumPh(sh, f, co, src, k, W(_), n) == IF n > Len(src) THEN 0
   ELSE f[src[n]] * W(Phase(sh, co[src[n]], k, 1)) + SumPh(sh, f, co, src, k, W, n + 1)
\* the half spectrum: real parts then imaginary parts
ForwardIn(sh, f, C(_), S(_)) ==
  LET co == Coords(sh) ks == Coords(HalfShape(sh)) src == Sources(f) n == Len(ks) IN
  TLCEval([q \in 1..(2 * n) |-> IF q <= n THEN SumPh(sh, f, co, src, ks[q], C, 1)
                                ELSE -SumPh(sh, f, co, src, ks[q - n], S, 1)])
Forward(sh, f) == ForwardIn(sh, f, Cs, Sn)
Cs28(p) == Cos28[(p % 5040) + 1]
Sn28(p) == Cos28[((p + 3780) % 5040) + 1]
Forward28(sh, f) == ForwardIn(sh, f, Cs28, Sn28)
\* the cells that carry a half spectrum entry also at its mirror image
Twice(sh, k) == LET L == Len(sh) IN k[L] # 0 /\ 2 * k[L] # sh[L]
\* number of cells times the field with the (Hermitian) half spectrum F
Backward(sh, F) ==
  LET co == Coords(sh) ks == Coords(HalfShape(sh)) n == Len(ks)
      src == SelectSeq([q \in 1..n |-> q], LAMBDA q : F[q] # 0 \/ F[n + q] # 0)
      RECURSIVE S(_, _)
      S(x, m) == IF m > Len(src) THEN 0
                 ELSE LET q == src[m] p == Phase(sh, x, ks[q], 1) IN
                      (IF Twice(sh, ks[q]) THEN 2 ELSE 1) * (F[q] * Cs(p) - F[n + q] * Sn(p)) + S(x, m + 1)
  IN TLCEval([i \in 1..Len(co) |-> S(co[i], 1)])
=============================================================================
