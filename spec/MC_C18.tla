------------------------------- MODULE MC_C18 -------------------------------
(***************************************************************************)
(* Laws of the transforms of Solvers: on grids whose cosines are 0 or +-1  *)
(* Backward(Forward(x)) is exactly the number of cells times x; on all     *)
(* grids the first entry is the sum, mirrored fields have the conjugate    *)
(* spectrum, and a shift multiplies the spectrum by a phase.               *)
(***************************************************************************)
EXTENDS Solvers
CONSTANT Deep
Exact == {<<2, 4>>, <<4, 2>>, <<4, 4>>, <<2, 2, 4>>, <<4, 2, 2>>}
Other == {<<2, 3>>, <<3, 5>>, <<5, 2>>, <<6, 7>>, <<2, 3, 5>>, <<3, 2, 2>>}
VARIABLES s, f, q
vars == <<s, f, q>>
Init == s \in Exact \cup Other /\ f = <<>> /\ q = 0
Next == /\ q = 0 /\ UNCHANGED s
        /\ \/ \E j \in 1..Cells(s), a \in {1, -3} : f' = [i \in 1..Cells(s) |-> IF i = j THEN a ELSE 0] /\ q' = j
           \/ \E j \in 1..(IF Deep THEN 60 ELSE 10) : f' = [i \in 1..Cells(s) |-> ((i * i * j + 7 * i + j) % 19) - 9] /\ q' = 1000 + j
Spec == Init /\ [][Next]_vars
N == Cells(s)
NH == Cells(HalfShape(s))
RECURSIVE Ix(_, _, _)
Ix(sh, x, a) == IF a > Len(sh) THEN 1 ELSE (x[a] % sh[a]) * Stride(sh, a) + Ix(sh, x, a + 1)
Near(x, y) == Abs(x - y) <= SumAbs(f, 1) + 1
LawsAt(F, co, ks) ==
  /\ F[1] = Q20 * SumSeq(f) /\ F[NH + 1] = 0
  /\ s \in Exact => LET E == [i \in 1..(2 * NH) |-> F[i] \div Q20] IN
        /\ \A i \in 1..(2 * NH) : E[i] * Q20 = F[i]
        /\ Backward(s, E) = [i \in 1..N |-> N * Q20 * f[i]]
  \* mirror image: conjugate
  /\ LET g == [i \in 1..N |-> f[Ix(s, [a \in 1..Len(s) |-> s[a] - co[i][a]], 1)]] H == Forward(s, g) IN
        \A k \in 1..NH : Near(H[k], F[k]) /\ Near(H[NH + k], -F[NH + k])
  \* shift by one cell along x of an impulse: phase 2 pi k / n
  /\ q < 1000 => \A k \in 1..NH :
        LET j == CHOOSE j \in 1..N : f[j] # 0 p == Phase(s, co[j], ks[k], 1) IN F[k] = f[j] * Cs(p) /\ F[NH + k] = -f[j] * Sn(p)
Laws == q > 0 => LawsAt(Forward(s, f), Coords(s), Coords(HalfShape(s)))
\* the table itself
Table == q = 0 => \A k \in 0..5039 : Cs(k) = Cs(5040 - k) /\ Cs(k + 2520) = -Cs(k)
   /\ (k % 5 = 0 => Abs(((Cs(k) \div 64) * (Cs(k) \div 64)) + ((Sn(k) \div 64) * (Sn(k) \div 64)) - 268435456) <= 65536)
=============================================================================
