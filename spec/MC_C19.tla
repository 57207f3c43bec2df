------------------------------- MODULE MC_C19 -------------------------------
(***************************************************************************)
(* Laws of the delta kernels of IB: for every position of a node within    *)
(* its cell (in 24ths along every axis) the weights are non-negative, sum  *)
(* to one, balance even and odd points; Peskin's kernel satisfies its      *)
(* defining equations and has zero first moment; both are even functions   *)
(* that vanish two cells away.                                             *)
(***************************************************************************)
EXTENDS IB
CONSTANT Deep
VARIABLES ty, d, k
vars == <<ty, d, k>>
Ks == IF Deep THEN 0..23 ELSE {0, 1, 5, 8, 12, 13, 23}
Init == ty \in {"cosine", "peskin"} /\ d \in {2, 3} /\ k = <<>>
Next == Len(k) < d /\ \E x \in (IF Len(k) < 2 THEN Ks ELSE {0, 7, 16}) : k' = Append(k, x) /\ UNCHANGED <<ty, d>>
Spec == Init /\ [][Next]_vars
P(j, x) == Phi(ty, 24 * j - x)
OneD == Len(k) = 1 => LET x == k[1] IN
   /\ Abs(P(-1, x) + P(0, x) + P(1, x) + P(2, x) - Q20) <= 2
   /\ Abs(P(-1, x) + P(1, x) - P(0, x) - P(2, x)) <= 2
   /\ ty = "peskin" => Abs(24 * (-P(-1, x) + P(1, x) + 2 * P(2, x)) - x * Q20) <= 48
   /\ \A y \in 0..48 : Phi(ty, y) = Phi(ty, -y) /\ Phi(ty, y) >= 0 /\ Phi(ty, 48 + y) = 0
   /\ \A y \in 0..48 : Abs(Phi30(ty, y) - 2048 * Phi(ty, y)) <= 2048
   /\ \A y \in 0..47 : Phi(ty, y) >= Phi(ty, y + 1)
   \* (8 phi - 3 + 2 r)^2 = 1 + 4 r - 4 r^2 with r = x / 24 (Peskin 2002, 6.27), in units 2^-10 / 24
   /\ ty = "peskin" => LET X == 24 * (8 * (Phi(ty, x) \div 1024) - 3 * 1024) + 2 * x * 1024 IN
         Abs((X \div 16) * (X \div 16) - (576 + 96 * x - 4 * x * x) * 4096) <= (X \div 16) * 48 + 4096
Three == Len(k) = d => LET w == Weights(ty, d, k) G == 0
     RECURSIVE S(_)
     S(o) == IF o > NSup(d) THEN 0 ELSE w[o] + S(o + 1) IN
   /\ \A o \in 1..NSup(d) : w[o] >= 0
   /\ Abs(S(1) - Q20) <= NSup(d)
   \* the finer numbers are the same weights
   /\ LET f == TLCEval([o \in 1..NSup(d) |-> Fine(ty, d, k, o)])
          RECURSIVE T(_)
          T(o) == IF o > NSup(d) THEN 0 ELSE (f[o] \div 2^d) + T(o + 1) IN
      Abs(T(1) - Q30) <= 2 * NSup(d) /\ \A o \in 1..NSup(d) : Abs((f[o] \div 2^d) - 1024 * w[o]) <= 4096
   \* mirrored position, mirrored weights
   /\ LET m == [c \in 1..d |-> IF c = 1 THEN (24 - k[1]) % 24 ELSE k[c]] IN
      k[1] > 0 => \A o \in 1..NSup(d) : Weight(ty, d, m, o + (1 - 2 * Off(o, 1))) = w[o]
   \* exchanging x and y transposes the weights
   /\ LET q == [k EXCEPT ![1] = k[2], ![2] = k[1]] IN
      \A o \in 1..NSup(d) : Abs(Weight(ty, d, q, o + (Off(o, 2) - Off(o, 1)) + 4 * (Off(o, 1) - Off(o, 2))) - w[o]) <= 2
=============================================================================
