------------------------------- MODULE MC_C06 -------------------------------
(* Laws of the implicit Brinkmann penalisation (C06), point by point: the   *)
(* value is the unique solution of the implicit relation, a convex          *)
(* combination of field and target, and repeated application is monotone.   *)
EXTENDS Machine
CONSTANT Deep
R == IF Deep THEN 12 ELSE 6
VARIABLES ph, r, chi, t, p
vars == <<ph, r, chi, t, p>>
Init == ph = 0 /\ r \in -R..R /\ chi = 0 /\ t = 0 /\ p = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED r /\ chi' \in {0, 1, 2, 5} /\ t' \in -R..R /\ p' \in {0, 1, 3, 8}
Spec == Init /\ [][Next]_vars
\* f is chosen so that the result r is an integer
F == r * (1 + p * chi) - p * chi * t
Unique == ph = 1 => \A x \in -60..60 : BrinkAt(x, F, chi, t, p) <=> x = r
Value == BrinkVal(F, chi, t, p) = r
Between == Min(F, t) <= r /\ r <= Max(F, t)
NoMask == chi = 0 \/ p = 0 => r = F
FixedPoint == F = t <=> (r = t /\ F = r)
\* the mismatch to the target shrinks exactly by 1 + p chi
Contracts == (r - t) * (1 + p * chi) = F - t
Linear == \A c \in {-1, 2, 7} : BrinkVal(c * F, chi, c * t, p) = c * r
=============================================================================
