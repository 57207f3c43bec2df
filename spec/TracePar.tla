------------------------------ MODULE TracePar ------------------------------
(* Every recorded launch of the real kernels must be free of conflicts.      *)
EXTENDS ParLoop, Json
Hist == JsonDeserialize("trace.json")
VARIABLES t, l
Init == t \in 1..Len(Hist) /\ l = 1
Next == /\ l <= Len(Hist[t].ev)
        /\ IF ConflictFree(Hist[t].ev[l]) THEN TRUE
           ELSE PrintT(<<"MISMATCH", "hist", Hist[t].id, "event", l, "clause",
                         "one point of the loop writes memory that another one accesses">>)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
