------------------------------ MODULE LawBase ------------------------------
(***************************************************************************)
(* Enumeration of test fields shared by the law models MC_*.  The state is *)
(* a point of a finite space of inputs; the laws are invariants.  Fields   *)
(* are dense, numbered by a seed, or impulses (which determine a linear    *)
(* operator) and sums of two impulses.                                     *)
(***************************************************************************)
EXTENDS Machine
Impulses(n, i, a, j, b) ==
  TLCEval([k \in 1..n |-> (IF k = i THEN a ELSE 0) + (IF k = j THEN b ELSE 0)])
\* dense fields with values in -r..r, numbered by q
Dense(n, q, r) == TLCEval([k \in 1..n |->
   ((((k * k + 37 * q) % 101) * (k + 13 * q + 7) + q * q) % (2 * r + 1)) - r])
CoordField(G, c) == Mk(G, LAMBDA i : Coord(G.sh, i, AxisOf(G.sh, c)))
SumOver(S, Op(_)) == LET RECURSIVE S1(_)
                         S1(T) == IF T = {} THEN 0
                                  ELSE LET x == CHOOSE x \in T : TRUE IN Op(x) + S1(T \ {x})
                     IN S1(S)
ScaleSeq(a, x) == TLCEval([i \in 1..Len(x) |-> a * x[i]])
\* index of the mirror image of cell i along axis a
Mirror(sh, i, a) == i + (sh[a] - 1 - 2 * Coord(sh, i, a)) * Stride(sh, a)
MirrorField(G, f, a) == Mk(G, LAMBDA i : f[Mirror(G.sh, i, a)])
=============================================================================
