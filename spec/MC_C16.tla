------------------------------- MODULE MC_C16 -------------------------------
(***************************************************************************)
(* The unbounded solver as an algorithm: a domain doubled buffer is        *)
(* cleared, the right-hand side copied into its first corner, convolved    *)
(* periodically with the reflected Green's function, and the corner copied *)
(* out.  Explored over histories of solves on the same buffer: whenever a  *)
(* solve is done, the solution is the free-space sum (Solvers!FreeSpace),  *)
(* whatever the buffer held before.  Further invariants are the laws of    *)
(* the free-space sum itself.                                              *)
(***************************************************************************)
EXTENDS Solvers
CONSTANT Deep
Shapes == {<<2, 3>>, <<3, 1>>, <<2, 2>>, <<2, 1, 2>>} \cup (IF Deep THEN {<<3, 3>>, <<2, 2, 2>>, <<2, 4>>, <<1, 2, 3>>} ELSE {})
Us == {[m |-> 1, n |-> 1, k |-> 0], [m |-> 3, n |-> 7, k |-> -2]}
Dbl(sh) == [a \in 1..Len(sh) |-> 2 * sh[a]]
Refl(sh, x) == [a \in 1..Len(sh) |-> Min(x[a], 2 * sh[a] - x[a])]
Norm2(x) == IF Len(x) = 2 THEN Sq(x[1]) + Sq(x[2]) ELSE Sq(x[1]) + Sq(x[2]) + Sq(x[3])
RECURSIVE Ix(_, _, _)
Ix(sh, x, a) == IF a > Len(sh) THEN 1 ELSE (x[a] % sh[a]) * Stride(sh, a) + Ix(sh, x, a + 1)
Green(sh, u, s) == IF Len(sh) = 2 THEN Green2(u, s) ELSE Green3(s)
\* reflected Green's function on the doubled grid
Kern(sh, u) == LET D == Dbl(sh) co == Coords(D) IN TLCEval([i \in 1..Cells(D) |-> Green(sh, u, Norm2(Refl(sh, co[i])))])
Circ(sh, kern, b) == LET D == Dbl(sh) co == Coords(D) src == Sources(b)
    at(i, j) == kern[Ix(D, [a \in 1..Len(D) |-> co[i][a] - co[j][a] + D[a]], 1)]
    RECURSIVE S(_, _)
    S(i, k) == IF k > Len(src) THEN 0 ELSE b[src[k]] * at(i, src[k]) + S(i, k + 1)
  IN TLCEval([i \in 1..Len(b) |-> S(i, 1)])
Corner(sh, i) == Ix(Dbl(sh), Coords(sh)[i], 1)
VARIABLES s, u, buf, rhs, sol, pc, n
vars == <<s, u, buf, rhs, sol, pc, n>>
Fields(sh) == {[i \in 1..Cells(sh) |-> IF i = j THEN 2 ELSE 0] : j \in 1..Cells(sh)} \cup {[i \in 1..Cells(sh) |-> ((i * i) % 5) - 2]}
Init == /\ s \in Shapes /\ u \in Us /\ buf = [i \in 1..Cells(Dbl(s)) |-> 7] /\ sol = <<>>
        /\ rhs = <<>> /\ pc = "idle" /\ n = 0
Start == pc = "idle" /\ n < 2 /\ rhs' \in Fields(s) /\ pc' = "clear" /\ n' = n + 1 /\ UNCHANGED <<s, u, buf, sol>>
Clear == pc = "clear" /\ buf' = [i \in DOMAIN buf |-> 0] /\ pc' = "in" /\ UNCHANGED <<s, u, rhs, sol, n>>
CopyIn == /\ pc = "in" /\ pc' = "conv" /\ UNCHANGED <<s, u, rhs, sol, n>>
          /\ buf' = [q \in DOMAIN buf |-> IF \E i \in 1..Cells(s) : Corner(s, i) = q THEN rhs[CHOOSE i \in 1..Cells(s) : Corner(s, i) = q] ELSE buf[q]]
Convolve == pc = "conv" /\ buf' = Circ(s, Kern(s, u), buf) /\ pc' = "out" /\ UNCHANGED <<s, u, rhs, sol, n>>
CopyOut == pc = "out" /\ sol' = [i \in 1..Cells(s) |-> buf[Corner(s, i)]] /\ pc' = "idle" /\ UNCHANGED <<s, u, buf, rhs, n>>
Next == Start \/ Clear \/ CopyIn \/ Convolve \/ CopyOut
Spec == Init /\ [][Next]_vars
\* the algorithm refines the free-space sum
NoImages == pc = "idle" /\ n > 0 => sol = FreeSpace(s, u, rhs)
Imp(j) == [i \in 1..Cells(s) |-> IF i = j THEN 1 ELSE 0]
Symmetric == pc = "idle" /\ n = 0 => \A i, j \in 1..Cells(s) :
   /\ FreeSpace(s, u, Imp(i))[j] = FreeSpace(s, u, Imp(j))[i]
   /\ FreeSpace(s, u, Imp(i))[j] = Green(s, u, D2(Coords(s)[i], Coords(s)[j]))
Linear == pc = "clear" => LET f == rhs g == [i \in 1..Cells(s) |-> 3 - i]
              h == [i \in 1..Cells(s) |-> 2 * f[i] - g[i]] IN
          FreeSpace(s, u, h) = [i \in 1..Cells(s) |-> 2 * FreeSpace(s, u, f)[i] - FreeSpace(s, u, g)[i]]
\* the Green's function decreases with distance, also from the regularised value
Decreasing == \A x \in 1..200 : Green3(x) >= Green3(x + 1) /\ Green2(u, x) >= Green2(u, x + 1) /\ Green2(u, 0) > Green2(u, 1) /\ Green3(0) = Green3(1)
\* far away the discrete source is harmonic up to the order of the scheme
Scales == LET v == [u EXCEPT !.k = @ + 1] IN \A x \in 0..5 : Abs(Green2(u, x) - Green2(v, x) - Ln2G26 \div 64) <= 1
=============================================================================
