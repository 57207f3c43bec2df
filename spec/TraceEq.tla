------------------------------- MODULE TraceEq -------------------------------
(***************************************************************************)
(* Configuration independence: every public computation is a function of    *)
(* its inputs.  The state is that function as far as it has been observed   *)
(* (key -> value); an observation of a known key must agree with it.  The   *)
(* same key is observed under every configuration (precision, fixed or      *)
(* dynamic size, threads, layout, scalar or vector kernel, repetition), on  *)
(* arbitrary real inputs.  No input may change.                             *)
(* Values are integers relative to the largest                              *)
(* value, q = 2^30, and tol is the rounding of the less precise of the two. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
Groups == JsonDeserialize("trace.json")
VARIABLES t, l, known
Init == t \in 1..Len(Groups) /\ l = 1 /\ known = [k \in {} |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
\* |x - y| <= t, also where x - y leaves the 32 bit integers
Within32(x, y, u) == IF (x < 0) = (y < 0) THEN AbsI(x - y) <= u
                 ELSE x <= u /\ -u <= x /\ y <= u /\ -u <= y /\ AbsI(x - y) <= u
Agree(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Within32(x[i], y[i], tol)
Say(e, clause) == PrintT(<<"MISMATCH", "hist", Groups[t].id, "event", l, "config", e.conf, "clause", clause, "field", e.key>>)
Judge(e) == IF e.err # "" THEN Say(e, "raised " \o e.err)
            ELSE IF "chg" \in DOMAIN e /\ e.chg # <<>> THEN Say(e, "an input changed")
            ELSE IF e.key \notin DOMAIN known THEN TRUE
            ELSE LET k == known[e.key] IN
                 IF Agree(k.val, e.val, IF k.tol > e.tol THEN k.tol ELSE e.tol) THEN TRUE
                 ELSE Say(e, "depends on the configuration")
Next == /\ l <= Len(Groups[t].ev)
        /\ LET e == Groups[t].ev[l] IN
           /\ Judge(e)
           /\ known' = IF e.err # "" \/ e.key \in DOMAIN known THEN known
                       ELSE (e.key :> [val |-> e.val, tol |-> e.tol]) @@ known
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, l, known>>
View == <<t, l>>
=============================================================================
