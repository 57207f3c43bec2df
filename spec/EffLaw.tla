------------------------------- MODULE EffLaw -------------------------------
(* Common to MC_C13, MC_C14, MC_C15: one call of any operation on dense      *)
(* fields whose values make every division of Machine exact.                *)
EXTENDS OpTable, LawBase
Shapes == {<<6, 7>>, <<6, 5, 6>>}
Gr == TLCEval([sh \in Shapes |-> MkGrid(sh)])
RECURSIVE Num(_, _)
Num(r, k) == IF k > 11 THEN 0 ELSE IF <<"out", "f", "g", "v", "w", "pv", "t", "chi", "scr", "mid", "x">>[k] = r THEN k ELSE Num(r, k + 1)
MulOf(op) == CASE op \in {"adv_flux", "adv_step", "adv_step_v"} -> 6
               [] op = "stretch_rk3" -> 12 [] op \in {"filter", "filter_v"} -> 64
               [] op \in {"pen_bound", "pen_bound_v"} -> 1048576 [] OTHER -> 1
Mem(G, op, q) == LET D == Decl(op, G.d) IN
  TLCEval([r \in DOMAIN D.roles |-> LET n == LenOf(G, D.roles[r]) IN
     IF r = "chi" THEN TLCEval([i \in 1..n |-> (i + q) % 2])
     ELSE IF r = "v" THEN Dense(n, q + 17 * Num(r, 1), 2)
     ELSE ScaleSeq(MulOf(op), Dense(n, q + 17 * Num(r, 1), 5))])
\* chi is 0 or 1 and the factor is 1: make f + t even where chi = 1
EvenF(mem, op, val) ==
  IF op \in {"brink", "brink_v", "brinkfix", "brinkfix_v"} THEN [mem EXCEPT !.f = ScaleSeq(2, mem.f)] ELSE mem
Par(c) == [k |-> 2, l |-> -3, reset |-> FALSE, val |-> <<4 * c, -6 * c, 10 * c>>, width |-> 2, order |-> 1,
           type |-> "multiplicative", prec |-> 1024, big |-> 1]
ParOf(op, c) == IF op \in {"brink", "brink_v", "brinkfix", "brinkfix_v"} THEN [Par(c) EXCEPT !.k = 1] ELSE Par(c)
Start(G, op, q) == LET m == EvenF(Mem(G, op, q), op, 0) IN
  IF op \in {"brink", "brink_v"} THEN [m EXCEPT !.t = ScaleSeq(2, m.t)] ELSE m
Ev(op, d, c) == [op |-> op, a |-> [r \in DOMAIN Decl(op, d).roles |-> r], p |-> ParOf(op, c)]
=============================================================================
