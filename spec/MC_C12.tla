------------------------------- MODULE MC_C12 -------------------------------
(***************************************************************************)
(* C12 on the specification: two threads execute the iterations of a loop   *)
(* over a row of N cells; each iteration reads its addresses one by one and *)
(* then writes.  For every access pattern (offsets, shared or separate      *)
(* arrays): if it is ConflictFree, every interleaving and every assignment  *)
(* of iterations to threads ends in the memory of the sequential loop.      *)
(* Values are what was read, hashed, so any difference shows.               *)
(***************************************************************************)
EXTENDS ParLoop
CONSTANT Deep
N == IF Deep THEN 6 ELSE 5
Offs == {-1, 0, 1}
Acc(o, d) == [own |-> o, base |-> d, st |-> <<1>>]
VARIABLES launch, mem, todo, pc, cur, seen
vars == <<launch, mem, todo, pc, cur, seen>>
Threads == {1, 2}
M0 == [a \in {1, 2} \X (1..N) |-> a[1] * 100 + a[2] * a[2]]
Launches == {[rng |-> <<r>>, reads |-> rd, writes |-> wr] :
               r \in {<<2, N, 1>>},
               rd \in {<<Acc(o, d)>> : o \in {1, 2}, d \in Offs} \cup {<<Acc(o, d), Acc(2, e)>> : o \in {1, 2}, d \in Offs, e \in Offs},
               wr \in {<<Acc(1, d)>> : d \in Offs}}
Free == {x \in Launches : ConflictFree(x)}
Hash(s, w) == (IF Len(s) = 1 THEN 3 * s[1] ELSE 3 * s[1] + 7 * s[2]) % 997
RECURSIVE SeqRun(_, _, _)
Do(L, m, p) == LET s == [k \in 1..Len(L.reads) |-> m[Addr(L.reads[k], <<p>>)]] IN
               [m EXCEPT ![Addr(L.writes[1], <<p>>)] = Hash(s, 1)]
SeqRun(L, m, p) == IF p >= N THEN m ELSE SeqRun(L, Do(L, m, p), p + 1)
Init == /\ launch \in Free /\ mem = M0 /\ todo = 2..(N - 1)
        /\ pc = [t \in Threads |-> 0] /\ cur = [t \in Threads |-> 0] /\ seen = [t \in Threads |-> <<>>]
\* a thread takes any iteration that is left (any schedule), reads, writes
Take(t) == /\ pc[t] = 0 /\ \E p \in todo : /\ cur' = [cur EXCEPT ![t] = p] /\ todo' = todo \ {p}
           /\ pc' = [pc EXCEPT ![t] = 1] /\ seen' = [seen EXCEPT ![t] = <<>>] /\ UNCHANGED <<mem, launch>>
Read(t) == /\ pc[t] \in 1..Len(launch.reads)
           /\ seen' = [seen EXCEPT ![t] = Append(@, mem[Addr(launch.reads[pc[t]], <<cur[t]>>)])]
           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<mem, todo, cur, launch>>
Write(t) == /\ pc[t] = Len(launch.reads) + 1
            /\ mem' = [mem EXCEPT ![Addr(launch.writes[1], <<cur[t]>>)] = Hash(seen[t], 1)]
            /\ pc' = [pc EXCEPT ![t] = 0] /\ seen' = [seen EXCEPT ![t] = <<>>] /\ cur' = [cur EXCEPT ![t] = 0]
            /\ UNCHANGED <<todo, launch>>
Next == \E t \in Threads : Take(t) \/ Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars
Finished == todo = {} /\ \A t \in Threads : pc[t] = 0
OneOutcome == Finished => mem = SeqRun(launch, M0, 2)
\* in place at the same point is fine, a shifted in-place read is not
Examples == /\ [rng |-> <<<<2, N, 1>>>>, reads |-> <<Acc(1, 0)>>, writes |-> <<Acc(1, 0)>>] \in Free
            /\ [rng |-> <<<<2, N, 1>>>>, reads |-> <<Acc(1, 1)>>, writes |-> <<Acc(1, 0)>>] \notin Free
            /\ [rng |-> <<<<2, N, 1>>>>, reads |-> <<Acc(2, 1)>>, writes |-> <<Acc(1, 0)>>] \in Free
ASSUME Examples
=============================================================================
