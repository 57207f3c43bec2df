------------------------------- MODULE MC_C17 -------------------------------
(***************************************************************************)
(* The Neumann problem as a relation (Solvers!NeumannOK): the operator is  *)
(* symmetric, its range has zero sum and its kernel is the constants, so   *)
(* that every right-hand side minus its mean has exactly one zero-mean     *)
(* solution; cosines at the half points diagonalise it along every axis.   *)
(***************************************************************************)
EXTENDS Solvers
CONSTANT Deep
Shapes == {<<2, 2>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>} \cup (IF Deep THEN {<<3, 3>>, <<2, 4>>, <<4, 2>>} ELSE {})
R == IF Deep THEN 2 ELSE 1
VARIABLES s, f
vars == <<s, f>>
Init == s \in Shapes /\ f = <<>>
\* all fields, built cell by cell
Next == /\ Len(f) < Cells(s) /\ UNCHANGED s
        /\ \E x \in (IF Cells(s) > 6 THEN -1..1 ELSE -R..R) : f' = Append(f, x)
Spec == Init /\ [][Next]_vars
Imp(j, n) == [i \in 1..n |-> IF i = j THEN 1 ELSE 0]
Dot(x, y) == SumSeq([i \in 1..Len(x) |-> x[i] * y[i]])
Laws == Len(f) = Cells(s) =>
  LET G == MkGrid(s) A == NegLap(G, f) IN
  /\ SumSeq(A) = 0
  /\ (\A i \in 1..G.n : A[i] = 0) => (\A i \in 1..G.n : f[i] = f[1])
  /\ Dot(f, A) >= 0
  /\ A[2] = Dot(f, NegLap(G, Imp(2, G.n)))
  \* f (if of zero mean) solves for A, with any constant added to A, and nothing near it does
  /\ SumSeq(f) = 0 => LET B == [i \in 1..G.n |-> A[i] + 5]
                          z == [i \in 1..G.n |-> 8 * f[i]] IN
       /\ NeumannOK(G, z, A, 8, 0, 0) /\ NeumannOK(G, z, B, 8, 0, 0)
       /\ ~NeumannOK(G, [z EXCEPT ![1] = @ + 1], B, 8, 0, 0)
       /\ ~NeumannOK(G, [i \in 1..G.n |-> z[i] + 1], B, 8, 0, 0)
\* cos(pi k (j + 1/2) / n) is an eigenvector with eigenvalue 2 - 2 cos(pi k / n)
Mode(n, k, j) == Cs(((2 * j + 1) * k * 5040) \div (4 * n))
Mul14(x, y) == ((x \div 64) * (y \div 64)) \div 256   \* product of two 2^-20 numbers
Modes == f = <<>> => \A n \in {2, 3, 5, 6, 7} : \A k \in 0..(n - 1) : \A j \in 0..(n - 1) :
   LET m(i) == Mode(n, k, i)
       a == (IF j > 0 THEN m(j) - m(j - 1) ELSE 0) + (IF j < n - 1 THEN m(j) - m(j + 1) ELSE 0)
       lam == 2 * Q20 - 2 * Cs((k * 5040) \div (2 * n))
   IN Abs(a - Mul14(lam, m(j))) <= 400
=============================================================================
