------------------------------ MODULE TraceConf ------------------------------
(***************************************************************************)
(* Judges what the real generators, classes and kernels accepted against   *)
(* Config.                                                                 *)
(***************************************************************************)
EXTENDS Config, Json
Hist == JsonDeserialize("trace.json")
VARIABLES t, l
vars == <<t, l>>
H == Hist[t]
Init == t \in 1..Len(Hist) /\ l = 1
Say(e, clause, x) == PrintT(<<"MISMATCH", "hist", H.id, "event", l, "op", e.op, "clause", clause, "at", x, "error", e.err>>)
Must(e, cond, clause, x) == IF cond THEN TRUE ELSE Say(e, clause, x)
Build(e) == IF ~Known(e.target, e.o) THEN Say(e, "HARNESS: unknown option", ToString(e.o)) ELSE
            IF ConfigOK(e.target, e.o) THEN Must(e, e.err = "", "valid configuration refused", e.target \o " " \o ToString(e.o))
            ELSE Must(e, e.err # "", "invalid configuration accepted", e.target \o " " \o ToString(e.o))
Range(s) == {s[i] : i \in 1..Len(s)}
Call(e) == LET args == ArgsOf(H.kernel, H.dim, e.faults, H.sh, e.base)
               ok == CallOK(H.kernel, H.dim, args, H.fx, H.sh) /\ ~Few(e.faults)
               x == H.kernel \o " " \o ToString(e.faults) IN
  IF ok THEN Must(e, e.err = "", "valid arguments refused", x)
  ELSE /\ Must(e, e.err # "", "invalid arguments accepted", x)
       /\ IF e.err = "" \/ Few(e.faults) THEN TRUE
          ELSE Must(e, Range(e.changed) \cap Outs(H.kernel, H.dim) = {}, "refused call changed an output", x)
Name(e) == LET n == IF e.name = "<default>" THEN DefaultName ELSE e.name IN
  IF n \notin DOMAIN Precisions THEN Must(e, e.err # "", "unknown precision accepted", e.name)
  ELSE /\ Must(e, e.err = "", "precision name refused", e.name)
       /\ Must(e, e.kind = "f" /\ e.size = Precisions[n], "type of a precision name", e.name)
       /\ Must(e, e.tol, "tolerance of a precision name", e.name)
Judge(e) == CASE e.op = "build" -> Build(e) [] e.op = "call" -> Call(e) [] e.op = "name" -> Name(e)
Next == l <= Len(H.ev) /\ Judge(H.ev[l]) /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
