------------------------------- MODULE MC_C22 -------------------------------
(***************************************************************************)
(* Laws of the implicit Brinkmann forcing (C22) over coefficients, steps,   *)
(* node positions and velocities.                                          *)
(***************************************************************************)
EXTENDS Forcing
CONSTANT Deep
Shapes == {<<4, 5>>, <<4, 4, 5>>}
Gr == TLCEval([s \in Shapes |-> MkGrid(s)])
VARIABLES s, k, kq, dt8, v, q
vars == <<s, k, kq, dt8, v, q>>
Ks == IF Deep THEN {0, 1, 5, 12, 17, 23} ELSE {0, 5, 12}
Init == /\ s \in Shapes /\ k \in Ks \X Ks /\ kq \in {0, 1, 4, 20, 40} /\ dt8 \in {1, 4, 8} /\ v = 0 /\ q = 0
Next == q = 0 /\ q' \in 1..(IF Deep THEN 3 ELSE 1) /\ v' \in {-9, 0, 4} /\ UNCHANGED <<s, k, kq, dt8>>
Spec == Init /\ [][Next]_vars
LawsG(G) == LET
  d == G.d
  nodes == <<[c |-> [a \in 1..d |-> 1], k |-> [a \in 1..d |-> IF a = 1 THEN k[1] ELSE k[2]]], [c |-> [a \in 1..d |-> IF a = 1 THEN 2 ELSE 1], k |-> [a \in 1..d |-> k[2]]]>>
  bs == TLCEval([i \in 1..2 |-> nodes[i].c])
  ws == TLCEval([i \in 1..2 |-> Weights("cosine", d, nodes[i].k)])
  u == TLCEval([i \in 1..(d * G.n) |-> ((i * i * (5 + q) + 3 * i) % 19) - 9])
  body == TLCEval([i \in 1..(2 * d) |-> v + i])
  flow == TLCEval(FlowAt(G, u, bs, ws))
  pen == TLCEval(Penalised(flow, body, kq, dt8))
  pen2 == TLCEval(Penalised(flow, body, kq + 8, dt8))
  flux == TLCEval(Minus(pen, flow))
  z == TLCEval([i \in 1..(d * G.n) |-> 0])
  P == TLCEval(SpreadOn(G, z, bs, ws, flux))
  IN \* between flow and body, the closer the stronger
     /\ \A i \in 1..(2 * d) : LET f == flow[i] b == Q16 * body[i] IN
          /\ Min(f, b) - 1 <= pen[i] /\ pen[i] <= Max(f, b) + 1
          /\ Abs(pen2[i] - b) <= Abs(pen[i] - b) + 1
          \* implicit equation: pen - flow = m/32 (body - pen)
          /\ Abs(32 * (pen[i] - f) - kq * dt8 * (b - pen[i])) <= 32 + kq * dt8
          /\ kq = 0 => pen[i] = f /\ flux[i] = 0
     \* nothing to do for a body that follows the flow
     /\ LET still == Penalised([i \in 1..(2 * d) |-> Q16 * body[i]], body, kq, dt8) IN \A i \in 1..(2 * d) : still[i] = Q16 * body[i]
     \* momentum is conserved by spreading, accumulation is additive
     /\ \A c \in 1..d : Abs(SumSeq(CompE(G, P, c)) - SumSeq(CompL(flux, c, 2))) <= 4 * NSup(d)
     /\ LET PP == SpreadOn(G, P, bs, ws, flux) IN \A i \in 1..Len(P) : PP[i] = 2 * P[i]
     /\ \A i \in 1..(2 * d) : Abs(FluxForce(flux, dt8)[i] * dt8 - 8 * flux[i]) <= dt8
Laws == q > 0 => LawsG(Gr[s])
=============================================================================
