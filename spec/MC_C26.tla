------------------------------- MODULE MC_C26 -------------------------------
(***************************************************************************)
(* The calls of every operation with up to Deep faulty arguments (or all   *)
(* faulty alike), launch after launch.                                     *)
(***************************************************************************)
EXTENDS Config
CONSTANT Deep
VARIABLES op, d, fx, faults, base, pc, written, refused
vars == <<op, d, fx, faults, base, pc, written, refused>>
SizeOf(dd) == IF dd = 2 THEN <<6, 7>> ELSE <<6, 7, 8>>
Other(dd) == IF dd = 2 THEN <<7, 6>> ELSE <<7, 8, 6>>
MaxFaulty == IF Deep THEN 3 ELSE 2
FaultSets(o, dd) == {[r \in {} |-> ""]}
  \cup UNION {[S -> FaultsOf(dd)] : S \in {x \in SUBSET Args(o, dd) : Cardinality(x) \in 1..MaxFaulty}}
  \cup {[r \in DOMAIN Decl(o, dd).roles |-> f] : f \in FaultsOf(dd)}
A == ArgsOf(op, d, faults, SizeOf(d), base)
L == Launches(op, d)
Init == /\ d \in {2, 3} /\ op \in OpsOf(d) /\ fx \in BOOLEAN /\ faults \in FaultSets(op, d)
        /\ base \in (IF DOMAIN faults = {} THEN {SizeOf(d), Other(d)} ELSE {SizeOf(d)})
        /\ pc = 1 /\ written = {} /\ refused = FALSE
Go == /\ ~refused /\ pc <= Len(L) /\ UNCHANGED <<op, d, fx, faults, base>>
      /\ IF LaunchOK(L[pc], A, fx, SizeOf(d)) THEN pc' = pc + 1 /\ written' = written \cup L[pc].w /\ UNCHANGED refused
         ELSE refused' = TRUE /\ UNCHANGED <<pc, written>>
Next == Go
Spec == Init /\ [][Next]_vars
Done == ~refused /\ pc > Len(L)
Agrees == /\ (Done => CallOK(op, d, A, fx, SizeOf(d)))
          /\ (refused => ~CallOK(op, d, A, fx, SizeOf(d)))
Unchanged == refused => written \cap Outs(op, d) = {}
Complete == Done => Outs(op, d) \subseteq written
\* a single wrong argument among several is always refused; a single argument of another size only by a fixed size
Single == \A r \in DOMAIN faults : (DOMAIN faults = {r} /\ pc > Len(L)) =>
             (Cardinality(Args(op, d)) = 1 /\ faults[r] \notin {"prec", "int"} /\ (~fx \/ Unfixed(op)))
\* the table of options: no value is both, and one bad value suffices to refuse
Tables == \A t \in Targets : \A i \in 1..Len(OptsOf(t)) : LET o == OptsOf(t)[i] IN
            /\ Len(o.good) > 0
            /\ \A x \in 1..Len(o.good), y \in 1..Len(o.bad) : o.good[x] # o.bad[y]
            /\ \A y \in 1..Len(o.bad) : ~ConfigOK(t, [n \in {o.name} |-> o.bad[y]])
ASSUME Tables
=============================================================================
