----------------------------- MODULE TraceFlow -----------------------------
(***************************************************************************)
(* Replays histories recorded from the real kernels against Machine.       *)
(* One behaviour per history t: state = (history, next event, memory).     *)
(* Every event must be the Machine's action with the logged arguments:     *)
(*  - each declared output holds exactly (or within the stated tolerance)  *)
(*    the contents the Machine computes from the memory before the call,   *)
(*  - every other field, input or not, is unchanged (ev.post lists all     *)
(*    fields that changed, bit for bit),                                   *)
(*  - no memory outside the fields changed (ev.guard),                     *)
(*  - the call raised nothing.                                             *)
(* A violated clause prints a MISMATCH line and the replay continues from  *)
(* the observed memory, so the verdict covers all events.                  *)
(***************************************************************************)
EXTENDS Machine, Json

Hist == JsonDeserialize("trace.json")
Grids == TLCEval([t \in 1..Len(Hist) |-> MkGrid(Hist[t].sh)])

VARIABLES t, l, mem

Init == /\ t \in 1..Len(Hist)
        /\ l = 1
        /\ mem = Hist[t].mem

Say(kind, clause, ev, b) ==
  PrintT(<<kind, "hist", Hist[t].id, "event", l, "op", ev.op, "clause", clause, "field", b>>)

Ok(ev, eff, post, b) ==
  IF b \in eff.scr THEN TRUE
  ELSE IF SameSeq(After(eff, mem, b), post[b], IF b \in DOMAIN eff.w THEN eff.tol ELSE <<>>) THEN TRUE
  ELSE IF eff.alt # None
  THEN IF SameSeq(AfterAlt(eff, mem, b), post[b], <<>>)
       THEN Say("DEVIATION", "known alternative outcome", ev, b)
       ELSE Say("MISMATCH", "wrong contents", ev, b)
  ELSE Say("MISMATCH", IF b \in DOMAIN eff.w THEN "wrong contents" ELSE "must not change", ev, b)
Judge(ev, eff, post) ==
  /\ IF ev.err = "" THEN TRUE ELSE Say("MISMATCH", "raised " \o ev.err, ev, "-")
  /\ IF ev.guard THEN TRUE ELSE Say("MISMATCH", "memory outside the arrays changed", ev, "-")
  /\ \A b \in DOMAIN mem : Ok(ev, eff, post, b)

Next ==
  /\ l <= Len(Hist[t].ev)
  /\ LET ev   == Hist[t].ev[l]
         post == [b \in DOMAIN mem |-> IF b \in DOMAIN ev.post THEN ev.post[b] ELSE mem[b]]
         eff  == Effect(Grids[t], ev, mem)
     IN /\ Judge(ev, eff, post)
        /\ mem' = post
  /\ l' = l + 1
  /\ t' = t

Spec == Init /\ [][Next]_<<t, l, mem>>
View == <<t, l>>
=============================================================================
