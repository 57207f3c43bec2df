-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Fields of sopht-backend as the specification sees them: a field on a    *)
(* grid of shape sh = <<ny, nx>> or <<nz, ny, nx>> is a flat row-major      *)
(* sequence of integers, a vector field is its components one after the    *)
(* other (x first).  Axis a of the grid is numbered as in sh, so x is the   *)
(* last one, y the last but one and z (3D) the first one.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dim(sh) == Len(sh)
RECURSIVE ProdFrom(_, _)
ProdFrom(sh, a) == IF a > Len(sh) THEN 1 ELSE sh[a] * ProdFrom(sh, a + 1)
Cells(sh) == ProdFrom(sh, 1)
Stride(sh, a) == ProdFrom(sh, a + 1)
Axes(sh) == 1..Len(sh)
\* the axis along which component c (1 = x, 2 = y, 3 = z) points
AxisOf(sh, c) == Len(sh) + 1 - c

Coord(sh, i, a) == ((i - 1) \div Stride(sh, a)) % sh[a]
\* number of cells between cell i and the nearer of the two ends of axis a
EndDist(sh, i, a) == LET c == Coord(sh, i, a) IN
                     IF c < sh[a] - 1 - c THEN c ELSE sh[a] - 1 - c
Inside(sh, g, i) == \A a \in Axes(sh) : EndDist(sh, i, a) >= g
InnerSet(sh, g) == {i \in 1..Cells(sh) : Inside(sh, g, i)}

\* A grid with everything the kernels ask for computed once
MkGrid(sh) == [ sh   |-> sh,
                d    |-> Len(sh),
                n    |-> Cells(sh),
                st   |-> TLCEval([a \in 1..Len(sh) |-> Stride(sh, a)]),
                in1  |-> TLCEval([i \in 1..Cells(sh) |-> Inside(sh, 1, i)]),
                in2  |-> TLCEval([i \in 1..Cells(sh) |-> Inside(sh, 2, i)]) ]

\* stride of the direction in which component c points
SC(G, c) == G.st[G.d + 1 - c]

Comp(G, v, c) == SubSeq(v, (c - 1) * G.n + 1, c * G.n)
RECURSIVE JoinFrom(_, _)
JoinFrom(cs, k) == IF k > Len(cs) THEN <<>> ELSE cs[k] \o JoinFrom(cs, k + 1)
Join(cs) == JoinFrom(cs, 1)
\* Op(c) for every component, joined into a vector field
ByComp(G, Op(_)) == IF G.d = 2 THEN Op(1) \o Op(2) ELSE Op(1) \o Op(2) \o Op(3)

Mk(G, Op(_)) == TLCEval([i \in 1..G.n |-> Op(i)])
Const(G, v) == Mk(G, LAMBDA i : v)
RECURSIVE SumSeqFrom(_, _)
SumSeqFrom(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + SumSeqFrom(s, k + 1)
SumSeq(s) == SumSeqFrom(s, 1)
Abs(x) == IF x < 0 THEN -x ELSE x
\* |x - y| <= t, also where x - y leaves the 32 bit integers
Within32(x, y, t) == IF (x < 0) = (y < 0) THEN Abs(x - y) <= t
                 ELSE x <= t /\ -t <= x /\ y <= t /\ -t <= y /\ Abs(x - y) <= t
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
