------------------------------ MODULE ParLoop ------------------------------
(***************************************************************************)
(* The parallel loop of one kernel launch.  Its iterations are points of a  *)
(* box; each reads some addresses and then writes some addresses.  The      *)
(* OpenMP runtime may interleave the reads and writes of different          *)
(* iterations in any order, so the launch has one outcome only if no        *)
(* iteration writes what another one reads or writes (ConflictFree).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* addresses <<owner, offset>> of an access list at iteration point p
Addr(acc, p) == <<acc.own, acc.base + (LET RECURSIVE S(_)
                                           S(a) == IF a > Len(p) THEN 0 ELSE p[a] * acc.st[a] + S(a + 1) IN S(1))>>
Steps(r) == {r[1] + k * r[3] : k \in 0..((r[2] - r[1] - 1) \div r[3])}
Points(rng) == IF \E a \in 1..Len(rng) : rng[a][2] <= rng[a][1] THEN {}
               ELSE IF Len(rng) = 1 THEN {<<x>> : x \in Steps(rng[1])}
               ELSE IF Len(rng) = 2 THEN {<<x, y>> : x \in Steps(rng[1]), y \in Steps(rng[2])}
               ELSE {<<x, y, z>> : x \in Steps(rng[1]), y \in Steps(rng[2]), z \in Steps(rng[3])}
Pairs(accs, P) == UNION {{<<Addr(accs[k], p), p>> : p \in P} : k \in 1..Len(accs)}
ConflictFreeOn(launch, P) ==
  LET W == Pairs(launch.writes, P)
      WA == {w[1] : w \in W}
  IN /\ Cardinality(WA) = Cardinality(W)      \* no address is written by two points
     /\ \A k \in 1..Len(launch.reads) : \A p \in P :
          LET a == Addr(launch.reads[k], p) IN a \notin WA \/ <<a, p>> \in W
ConflictFree(launch) == ConflictFreeOn(launch, Points(launch.rng))
=============================================================================
