------------------------------- MODULE MC_C21 -------------------------------
(***************************************************************************)
(* Two virtual boundary forcing objects on one flow (C21): every            *)
(* interleaving of calls, steps, flow and body changes up to a depth.       *)
(* Ghosts: sum of dt * vm of the steps, force spread since the last reset.  *)
(***************************************************************************)
EXTENDS Forcing
CONSTANT Deep
G == TLCEval(MkGrid(<<4, 5>>))
Ob == {"a", "b"}
Nodes == [a |-> <<[c |-> <<1, 1>>, k |-> <<5, 12>>], [c |-> <<2, 1>>, k |-> <<0, 23>>]>>, b |-> <<[c |-> <<2, 1>>, k |-> <<8, 0>>]>>]
Co == [a |-> [kq |-> -8, cq |-> -3], b |-> [kq |-> 5, cq |-> 0]]
N(o) == Len(Nodes[o])
Bs == TLCEval([o \in Ob |-> [i \in 1..N(o) |-> Nodes[o][i].c]])
Ws == TLCEval([o \in Ob |-> [i \in 1..N(o) |-> Weights("cosine", 2, Nodes[o][i].k)]])
Flows == TLCEval(<<[i \in 1..(2 * G.n) |-> IF i <= G.n THEN 3 ELSE -2],
                   [i \in 1..(2 * G.n) |-> ((i * i * 7 + 3 * i) % 19) - 9]>>)
Vel(o, v) == [q \in 1..(2 * N(o)) |-> IF v = 1 THEN (IF q <= N(o) THEN 3 ELSE -2) ELSE 2 * q - 5]
VARIABLES u, bv, pm, vm, frc, clock, E, adv, tot, dep, last
vars == <<u, bv, pm, vm, frc, clock, E, adv, tot, dep, last>>
Z(o) == [q \in 1..(2 * N(o)) |-> 0]
Zero == [i \in 1..(2 * G.n) |-> 0]
Init == /\ u \in 1..2 /\ bv \in [Ob -> 1..2] /\ dep = 0 /\ last = "init"
        /\ pm = [o \in Ob |-> Z(o)] /\ vm = pm /\ frc = pm /\ adv = pm
        /\ clock = [o \in Ob |-> 0] /\ E = Zero /\ tot = <<0, 0>>
Sum(x, c, n) == SumSeq(CompL(x, c, n))
Interact(o, r) == LET fl == TLCEval(FlowAt(G, Flows[u], Bs[o], Ws[o])) m == TLCEval(Mismatch(fl, Vel(o, bv[o])))
                      f == TLCEval(PIForce(Co[o].kq, Co[o].cq, pm[o], m)) IN
   /\ vm' = [vm EXCEPT ![o] = m] /\ frc' = [frc EXCEPT ![o] = f]
   /\ E' = TLCEval(SpreadOn(G, IF r THEN Zero ELSE E, Bs[o], Ws[o], f))
   /\ tot' = [c \in 1..2 |-> (IF r THEN 0 ELSE tot[c]) + Sum(f, c, N(o))]
   /\ UNCHANGED <<u, bv, pm, clock, adv>>
Step(o, dt8) == /\ pm' = [pm EXCEPT ![o] = TLCEval(Advance(@, vm[o], dt8))]
                /\ adv' = [adv EXCEPT ![o] = TLCEval([q \in 1..Len(@) |-> @[q] + dt8 * vm[o][q]])]
                /\ clock' = [clock EXCEPT ![o] = @ + dt8]
                /\ UNCHANGED <<u, bv, vm, frc, E, tot>>
Change == \/ u' = 3 - u /\ UNCHANGED <<bv, pm, vm, frc, clock, E, adv, tot>>
          \/ \E o \in Ob : bv' = [bv EXCEPT ![o] = 3 - @] /\ UNCHANGED <<u, pm, vm, frc, clock, E, adv, tot>>
Next == /\ dep < (IF Deep THEN 5 ELSE 4) /\ dep' = dep + 1
        /\ \/ \E o \in Ob : \E r \in BOOLEAN : Interact(o, r) /\ last' = IF r THEN "reset" ELSE "add"
           \/ \E o \in Ob, dt8 \in {2, 8} : Step(o, dt8) /\ last' = "step"
           \/ Change /\ last' = "change"
Spec == Init /\ [][Next]_vars
Laws ==
  \* accumulated mismatch is exactly the sum over the steps, whatever the calls in between
  /\ \A o \in Ob, q \in 1..Len(pm["a"]) : q <= Len(pm[o]) => Abs(8 * pm[o][q] - adv[o][q]) <= 4 * dep
  \* total Eulerian force is the total Lagrangian force since the last reset
  /\ \A c \in 1..2 : Abs(SumSeq(CompE(G, E, c)) - tot[c]) <= 64 + 64 * dep
\* power given to the flow equals power received at the nodes
Adjoint == (last = "reset") => \E o \in Ob :
   LET fl == FlowAt(G, Flows[u], Bs[o], Ws[o])
       dot(x, y) == LET RECURSIVE S(_)
                        S(i) == IF i > Len(x) THEN 0 ELSE (x[i] \div 256) * y[i] + S(i + 1) IN S(1)
       pe == dot(E, Flows[u])                         \* 2^-8
       RECURSIVE P(_)
       P(i) == IF i > Len(fl) THEN 0 ELSE MulQ20(frc[o][i] \div 16, fl[i] * 16) + P(i + 1)   \* 2^-16
   IN Abs(pe - (P(1) * 16) \div 256) <= 40 * 2 * G.n
Uniform == \A o \in Ob : LET m == Mismatch(FlowAt(G, Flows[1], Bs[o], Ws[o]), Vel(o, 1)) IN \A q \in 1..Len(m) : Abs(m[q]) <= 2
HalfSteps == \A o \in Ob : LET x == Advance(Advance(pm[o], vm[o], 4), vm[o], 4) y == Advance(pm[o], vm[o], 8) IN \A q \in 1..Len(x) : Abs(x[q] - y[q]) <= 1
\* calls leave the integrators, steps leave the forces
Frame == [][/\ last' \in {"reset", "add"} => pm' = pm /\ clock' = clock
            /\ last' = "step" => frc' = frc /\ vm' = vm /\ E' = E
            /\ last' = "change" => UNCHANGED <<pm, vm, frc, E, clock>>]_vars
=============================================================================
