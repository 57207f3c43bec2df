------------------------------ MODULE ForcePlan ------------------------------
(***************************************************************************)
(* Generator of histories for C21 and C22: objects come and go, bodies      *)
(* move, the flow changes, calls and time steps interleave.  Magnitudes     *)
(* are tracked so that the replay stays within 32 bits: pm and E are bounds *)
(* on the accumulated mismatch and the Eulerian outputs.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Kind, Len0
VARIABLES objs, pm, eb, plan, out
vars == <<objs, pm, eb, plan, out>>
Names == {"o1", "o2", "o3"}
Bodies == {"B1", "B2"}
Us == {"U1", "U2"}
Es == {"E1", "E2"}
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(x, y) == IF x > y THEN x ELSE y
MaxU == 9   \* |flow|, |body velocity|
NoObj == [body |-> "none", kq |-> 0, cq |-> 0, reset |-> FALSE]
Init == /\ objs = [o \in Names |-> NoObj] /\ pm = [o \in Names |-> 0] /\ eb = [e \in Es |-> 0]
        /\ plan = <<[op |-> "poke", what |-> "all", on |-> ""]>> /\ out = FALSE
Alive == {o \in Names : objs[o].body # "none"}
Coef == IF Kind = "vbf" THEN {-17, -8, -3, -1, 0, 2, 4, 7, 13} ELSE {1, 2, 4, 8, 20, 40}
Pick(S) == RandomElement(S)
New == \E o \in {Pick(Names)}, b \in {Pick(Bodies)}, kq \in {Pick(Coef)}, cq \in {Pick(Coef)}, r \in {Pick({TRUE, FALSE})},
         st \in {Pick({0, 3, 40})}, th \in {Pick({0, 0, 2})}, df \in {Pick({TRUE, FALSE})} :
    /\ objs' = [objs EXCEPT ![o] = [body |-> b, kq |-> kq, cq |-> cq, reset |-> r]]
    /\ pm' = [pm EXCEPT ![o] = 0] /\ eb' = eb
    /\ plan' = Append(plan, [op |-> "new", o |-> o, body |-> b, kq |-> kq, cq |-> cq, reset |-> r, start8 |-> st, threads |-> th, defaults |-> df, kind |-> Kind])
\* bound of the force of an object, six nodes in one place at worst
Frc(o) == IF Kind = "vbf" THEN (Abs(objs[o].kq) * pm[o]) \div 4 + (Abs(objs[o].cq) * 2 * MaxU) \div 4 + 1 ELSE 2 * MaxU
Interact == Alive # {} /\ \E o \in {Pick(Alive)}, u \in {Pick(Us)}, e \in {Pick(Es)}, dt \in {Pick({1, 2, 4, 8, 12})} :
    \E how \in {Pick(IF Kind = "vbf" THEN (IF objs[o].reset THEN {"lag", "default", "reset", "noreset"} ELSE {"lag", "default", "noreset"})
                                    ELSE (IF objs[o].reset THEN {"default", "reset", "noreset"} ELSE {"default", "noreset"}))} :
    LET rs == how = "reset" \/ (how = "default" /\ objs[o].reset)
        nb == (IF rs THEN 0 ELSE eb[e]) + 2 * Frc(o) IN
    /\ how # "lag" => nb < 12000
    /\ eb' = IF how = "lag" THEN eb ELSE [eb EXCEPT ![e] = nb]
    /\ plan' = Append(plan, [op |-> "interact", o |-> o, body |-> objs[o].body, U |-> u, E |-> e, how |-> how, dt8 |-> dt])
    /\ UNCHANGED <<objs, pm>>
Step == Alive # {} /\ Kind = "vbf" /\ \E o \in {Pick(Alive)}, dt \in {Pick({-8, -3, 0, 1, 2, 3, 4, 8, 16})} :
    /\ pm[o] < 300
    /\ pm' = [pm EXCEPT ![o] = @ + (Abs(dt) * 2 * MaxU + 7) \div 8]
    /\ plan' = Append(plan, [op |-> "step", o |-> o, dt8 |-> dt])
    /\ UNCHANGED <<objs, eb>>
Poke == \E w \in {Pick({"U", "place", "vel", "E"})} : \E on \in {Pick(CASE w = "U" -> Us [] w = "E" -> Es [] OTHER -> Bodies)} :
    /\ eb' = IF w = "E" THEN [eb EXCEPT ![on] = 50] ELSE eb
    /\ plan' = Append(plan, [op |-> "poke", what |-> w, on |-> on])
    /\ UNCHANGED <<objs, pm>>
Emit == /\ Len(plan) >= Len0 /\ ~out /\ out' = TRUE
        /\ PrintT("PLAN " \o ToJson(plan)) /\ UNCHANGED <<objs, pm, eb, plan>>
Next == \/ /\ Len(plan) < Len0 /\ out' = FALSE
           /\ \E z \in {Pick(1..10)} :
              CASE Alive = {} \/ z = 1 -> New
                [] z \in {2, 3, 4} -> Poke
                [] z \in {5, 6, 7} -> Interact \/ Poke
                [] OTHER -> IF Kind = "vbf" THEN Step \/ Interact ELSE Interact \/ New
        \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
