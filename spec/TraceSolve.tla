----------------------------- MODULE TraceSolve -----------------------------
(***************************************************************************)
(* Replays histories of solver and transform calls, with several solver    *)
(* objects alive, against Solvers.  The state holds the integer contents   *)
(* of all fields; every call must relate its output to the contents of its *)
(* input field as Solvers says, change nothing but its declared outputs    *)
(* (e.changed lists every field that changed bit for bit) and raise        *)
(* nothing.  What an earlier call computed never enters.                   *)
(***************************************************************************)
EXTENDS Solvers, Json
Hist == JsonDeserialize("trace.json")
VARIABLES t, l, mem
Init == t \in 1..Len(Hist) /\ l = 1 /\ mem = Hist[t].mem
Bad == 2147483001
Say(e, clause, f) == PrintT(<<"MISMATCH", "hist", Hist[t].id, "event", l, "op", e.op, "inst", e.inst, "clause", clause, "field", f>>)
Within(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Within32(x[i], y[i], tol)
Clean(x) == \A i \in 1..Len(x) : x[i] # Bad
\* tolerances: rounding of the tables plus rounding of the precision
FreeTol(e, f) == LET s == SumAbs(f, 1) IN
   2 * s + 2 + (IF e.f32 THEN s * (2 + (2 * Abs(IF Len(e.sh) = 2 THEN LnDx(e.u) ELSE 0)) \div Q20) ELSE 0)
FreeOK(e, f, x) == Within(x, FreeSpace(e.sh, e.u, f), FreeTol(e, f))
Eps(e, big) == IF e.f32 THEN big \div 131072 ELSE 0   \* 128 units of the last place
NeuOK(e, f, x) == LET big == MaxAbs(x, 1) G == MkGrid(e.sh) IN
   big < 268435456 /\ NeumannOK(G, x, f, e.q, 2 * G.d + 2 + Eps(e, big), G.n * (1 + Eps(e, big)))
FwdOK(e, f, x) == Within(x, Forward(e.sh, f), SumAbs(f, 1) * (IF e.f32 THEN 2 ELSE 1) + 1)
BwdOK(e, F, x) == Within(x, Backward(e.sh, F), 2 * SumAbs(F, 1) * (IF e.f32 THEN 2 ELSE 1) + 1)
\* a field and its copy after both transforms
SameOK(e, f, x) == Within(x, TLCEval([i \in 1..Len(f) |-> f[i] * 65536]), IF e.f32 THEN 2 * MaxAbs(f, 1) ELSE 1)
Rel(e, f, x) == CASE e.op \in {"unb", "unb_v"} -> FreeOK(e, f, x)
                  [] e.op \in {"fd", "fd_v"} -> NeuOK(e, f, x)
                  [] e.op \in {"rfft", "scipy_f"} -> FwdOK(e, f, x)
                  [] e.op = "irfft" -> BwdOK(e, f, x)
                  [] e.op \in {"pair", "scipy_b"} -> SameOK(e, f, x)
\* few sources in double precision: compared in units of 2^-28
FineOK(e, f, x) == IF e.op \in {"rfft", "scipy_f"} THEN Within(x, Forward28(e.sh, f), SumAbs(f, 1) + 2)
                   ELSE Within(x, FreeSpace28(e.sh, e.u, f), 2 * SumAbs(f, 1) + 2)
Judge(e) ==
  /\ IF e.err = "" THEN TRUE ELSE Say(e, "raised " \o e.err, "-")
  /\ IF e.guard THEN TRUE ELSE Say(e, "memory outside the arrays changed", "-")
  /\ \A k \in 1..Len(e.changed) : IF \E j \in 1..Len(e.allowed) : e.allowed[j] = e.changed[k] THEN TRUE
                                  ELSE Say(e, "must not change", e.changed[k])
  /\ IF e.err # "" THEN TRUE
     ELSE \A c \in 1..Len(e.out) :
       LET f == SubSeq(mem[e.in], (c - 1) * e.nin + 1, c * e.nin) x == e.out[c] IN
       IF ~Clean(x) THEN Say(e, "result out of range or not a number", e.o)
       ELSE IF ~Rel(e, f, x) THEN Say(e, "wrong result", e.o)
       ELSE IF e.fine = <<>> \/ FineOK(e, f, e.fine) THEN TRUE ELSE Say(e, "not accurate to double precision", e.o)
Next == /\ l <= Len(Hist[t].ev)
        /\ LET e == Hist[t].ev[l] IN
           IF e.op = "poke" THEN mem' = [b \in DOMAIN mem |-> IF b \in DOMAIN e.fill THEN e.fill[b] ELSE mem[b]]
           ELSE Judge(e) /\ mem' = mem
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, l, mem>>
View == <<t, l>>
=============================================================================
