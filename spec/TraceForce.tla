------------------------------ MODULE TraceForce ------------------------------
(***************************************************************************)
(* Replays histories of virtual boundary (vbf) and Brinkmann (bbf) forcing  *)
(* objects that share flow fields, bodies and Eulerian outputs (C21, C22).  *)
(*                                                                         *)
(* State: U  flow fields (integers), E Eulerian outputs (2^-16; times dx^d  *)
(* for vbf), bodies (nodes at 24ths of cells, integer velocities), objects  *)
(* with coefficients in quarters, their observable arrays in 2^-16 and the  *)
(* clock in 2^-10.                                                          *)
(* Every call is judged against the state before it: the arrays it must     *)
(* set, and the set of arrays that changed at all.                          *)
(***************************************************************************)
EXTENDS Forcing, Json
Hist == JsonDeserialize("trace.json")
Grids == TLCEval([t \in 1..Len(Hist) |-> MkGrid(Hist[t].sh)])
VARIABLES t, l, U, E, B, O
vars == <<t, l, U, E, B, O>>
None == [x \in {} |-> 0]
Init == /\ t \in 1..Len(Hist) /\ l = 1 /\ U = None /\ E = None /\ B = None /\ O = None
Say(e, clause, f) == PrintT(<<"MISMATCH", "hist", Hist[t].id, "event", l, "op", e.op, "clause", clause, "field", f>>)
Must(e, cond, clause, f) == IF cond THEN TRUE ELSE Say(e, clause, f)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
PutAll(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Close(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Within32(x[i], y[i], tol)
\* close up to tol and the rounding of single precision
CloseR(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Within32(x[i], y[i], tol + Abs(y[i]) \div 262144)
\* fine histories (everything exact in the projection, up to the last digits of double precision)
Whole(e, a) == \A k \in 1..Len(e.fracs) : e.fracs[k] # a
Tol(e, x, y, tol, a) == IF e.fine THEN x = y /\ Whole(e, a) ELSE CloseR(x, y, tol)
\* quotients: only where the denominator is a power of two
TolDiv(e, x, y, tol, a, m) == IF e.fine /\ m \in {1, 2, 4, 8, 16, 32, 64, 128, 256} THEN x = y /\ Whole(e, a) ELSE CloseR(x, y, tol)
Zeros(x) == \A i \in 1..Len(x) : x[i] = 0
\* ---------------------------------------------------------------- objects
NewOK(e) == /\ Must(e, e.err = "", "raised " \o e.err, e.o)
            /\ Must(e, e.changed = <<>>, "other arrays changed", e.o)
            /\ IF e.err # "" \/ e.kind = "bbf" THEN TRUE ELSE
                 /\ Must(e, Zeros(e.res.pm) /\ Zeros(e.res.vm), "starts without mismatch", e.o)
                 /\ Must(e, e.time = e.start, "starts at the start time", e.o)
NewObj(e) == [kind |-> e.kind, n |-> e.n, kq |-> e.kq, cq |-> e.cq, reset |-> e.reset, a |-> e.res, time |-> e.time]
\* ------------------------------------------------------------------ steps
StepOK(G, e) == LET o == O[e.o] IN
  /\ Must(e, e.err = "", "raised " \o e.err, e.o)
  /\ Must(e, \A k \in 1..Len(e.changed) : e.changed[k] = <<e.o, "pm">>, "only the position mismatch changes", ToString(e.changed))
  /\ Must(e, Tol(e, e.res.pm, TLCEval(Advance(o.a.pm, o.a.vm, e.dt8)), 2, "pm"), "mismatch advances by dt times the velocity mismatch", e.o)
  /\ Must(e, e.time = o.time + 128 * e.dt8, "clock advances by dt", e.o)
\* ----------------------------------------------------------- interactions
Bases(nodes) == [i \in 1..Len(nodes) |-> nodes[i].c]
WsOf(G, nodes) == TLCEval([i \in 1..Len(nodes) |-> Weights("cosine", G.d, nodes[i].k)])
Resets(e, o) == CASE e.how = "reset" -> TRUE [] e.how = "noreset" -> FALSE [] OTHER -> o.reset
FlowTol(G) == 8 + NSup(G.d)
EulTol(f, n, d) == LET RECURSIVE S(_)
                       S(i) == IF i > Len(f) THEN 0 ELSE Abs(f[i]) \div 131072 + S(i + 1) IN 8 + 2 * n + S(1)
EulOK(e, x, want, tol, exact) == IF e.fine /\ exact THEN x = want /\ Whole(e, "E") ELSE CloseR(x, want, tol)
Sets(e, o, what) == {<<e.o, w>> : w \in what} \cup (IF e.how = "lag" THEN {} ELSE {<<e.E, "">>})
InteractOK(G, e) ==
  LET o == O[e.o] b == B[e.B] bs == Bases(b.nodes) ws == WsOf(G, b.nodes) n == Len(b.nodes)
      vbf == o.kind = "vbf"
      flow == TLCEval(FlowAt(G, U[e.U], bs, ws))
      a == e.res
      frc == IF vbf THEN a.frc ELSE a.flux
      before == TLCEval(IF Resets(e, o) THEN [i \in 1..(G.d * G.n) |-> 0] ELSE E[e.E])
  IN /\ Must(e, e.err = "", "raised " \o e.err, e.o)
     /\ Must(e, \A k \in 1..Len(e.changed) : e.changed[k] \in Sets(e, o, IF vbf THEN {"flow", "vm", "frc"} ELSE {"flow", "pen", "flux", "frc"}),
             "sets its own force and the Eulerian output only", ToString(e.changed))
     /\ IF e.err # "" THEN TRUE ELSE
        /\ Must(e, ~e.bad, "value out of range or not a number", e.o)
        /\ Must(e, Tol(e, a.flow, flow, FlowTol(G), "flow"), "flow velocity is the interpolated flow", e.o)
        /\ IF vbf THEN
             /\ Must(e, Tol(e, a.vm, TLCEval(Mismatch(a.flow, b.v)), 2, "vm"), "velocity mismatch is flow minus body", e.o)
             /\ Must(e, Tol(e, a.frc, TLCEval(PIForce(o.kq, o.cq, o.a.pm, a.vm)), 4 + Abs(o.kq) + Abs(o.cq), "frc"), "force is the PI law", e.o)
             /\ Must(e, e.time = o.time, "interaction leaves the clock", e.o)
           ELSE
             /\ Must(e, TolDiv(e, a.pen, TLCEval(Penalised(a.flow, b.v, o.kq, e.dt8)), 4, "pen", 32 + o.kq * e.dt8), "penalised velocity is the implicit update", e.o)
             /\ Must(e, TolDiv(e, a.flux, TLCEval(Minus(a.pen, a.flow)), 4, "flux", 32 + o.kq * e.dt8), "flux is penalised minus flow", e.o)
             /\ Must(e, TolDiv(e, a.frc, TLCEval(FluxForce(a.flux, e.dt8)), 16, "frc", IF 32 + o.kq * e.dt8 \in {32, 64, 128, 256} THEN e.dt8 ELSE 3), "forcing is flux times cell volume over dt", e.o)
        /\ IF e.how = "lag" THEN TRUE ELSE
             Must(e, EulOK(e, e.E16, TLCEval(SpreadOn(G, before, bs, ws, frc)), EulTol(frc, n, G.d), E[e.E] # <<>> /\ (vbf \/ 32 + o.kq * e.dt8 \in {32, 64, 128, 256})), "Eulerian output is the spread", e.E)
\* ------------------------------------------------------------------------
Next == /\ l <= Len(Hist[t].ev)
        /\ l' = l + 1 /\ t' = t
        /\ LET e == Hist[t].ev[l] G == Grids[t] IN
           CASE e.op = "poke" -> /\ U' = PutAll(U, e.U) /\ E' = PutAll(E, e.E) /\ B' = PutAll(B, e.B) /\ O' = O
             [] e.op = "new" -> NewOK(e) /\ O' = Put(O, e.o, NewObj(e)) /\ UNCHANGED <<U, E, B>>
             [] e.op = "step" -> StepOK(G, e) /\ O' = [O EXCEPT ![e.o].a = e.res, ![e.o].time = e.time] /\ UNCHANGED <<U, E, B>>
             [] e.op = "interact" -> /\ InteractOK(G, e)
                                     /\ O' = [O EXCEPT ![e.o].a = e.res]
                                     /\ E' = IF e.how = "lag" THEN E ELSE [E EXCEPT ![e.E] = e.E16]
                                     /\ UNCHANGED <<U, B>>
Spec == Init /\ [][Next]_vars
View == <<t, l>>
=============================================================================
