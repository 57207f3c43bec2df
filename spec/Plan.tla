-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* Generator of histories for C15 (and C12, C13): long sequences of public  *)
(* kernel calls over a shared pool of fields and scratch buffers.           *)
(* A field is abstracted to what makes the exact replay possible: a bound   *)
(* on its magnitude (bits) and powers of 2 and 3 dividing all its values.   *)
(* A call is enabled when every intermediate stays below the cap and every  *)
(* division of Machine is exact; a poke (the user writing to a field) is    *)
(* always possible.  Simulated with TLC; each behaviour ends by printing    *)
(* its plan, which the driver executes on the real kernels.                 *)
(***************************************************************************)
EXTENDS OpTable, Json, Randomization
CONSTANTS D, Cap, ICap, Len0, Half
VARIABLES ab, plan, pick
vars == <<ab, plan, pick>>
Sc == {"s1", "s2", "s3"}
Ve == {"v1", "v2", "v3"}
Co == {"c1", "c2", "c3"}
Pool(kind) == CASE kind = "s" -> Sc [] kind = "v" -> Ve [] kind = "c" -> Co
Ab(b, e2, e3) == [b |-> b, e2 |-> e2, e3 |-> e3]
Merge(x, y) == Ab(Max(x.b, y.b), Min(x.e2, y.e2), Min(x.e3, y.e3))
Up(x, n) == [x EXCEPT !.b = @ + n]
Less(x, d2, d3) == [x EXCEPT !.e2 = @ - d2, !.e3 = @ - d3]
Fixed == Ab(7, 2, 1)                     \* values +-12, 24, 36, ..., 108
Bits(k) == IF Abs(k) <= 1 THEN 0 ELSE IF Abs(k) = 2 THEN 1 ELSE 2

Even == {x \in OpsOf(D) : x \in {"diff_flux", "adv_step", "adv_flux", "curl_in", "curl3", "vort_force", "stretch_euler", "brink", "brinkfix_v",
         "sum", "saxpby_v", "set", "copy", "cross", "add_v", "ring", "filter_v", "diff_step_v"}}
Menu == IF Half = 0 THEN Even \cup {"sum_v"} ELSE (OpsOf(D) \ Even) \ {"pen_bound", "pen_bound_v"}
Opts(op) ==
  CASE op \in {"diff_flux", "diff_flux_v", "curl_out", "curl3"} -> [k : {1, -1, 2}, reset : {TRUE, FALSE}]
    [] op \in {"curl_in", "vort_force", "vort_pen"} -> [k : {1, -1, 2}]
    [] op = "div3" -> [k : {2, -2}, reset : {TRUE, FALSE}]
    [] op \in {"diff_step", "diff_step_v", "adv_flux", "adv_step", "adv_step_v", "stretch_flux", "stretch_euler"} -> [k : {1, -1}]
    [] op \in {"stretch_rk3", "brink", "brink_v"} -> [k : {1}]
    [] op \in {"brinkfix", "brinkfix_v"} -> [k : {1}, val : {<<12, -24, 36>>, <<0, 108, -12>>}]
    [] op \in {"set", "set_v", "add", "add_v"} -> [val : {<<12, -24, 36>>, <<-60, 0, 12>>, <<24, 108, -12>>}]
    [] op \in {"ring", "ring_v"} -> [val : {<<12, -24, 36>>, <<-60, 0, 12>>}, width : {1, 2}]
    [] op \in {"saxpby", "saxpby_v"} -> [k : {-2, 1, 3}, l : {-1, 0, 2}]
    [] op \in {"filter", "filter_v"} -> [order : {1}, type : {"multiplicative"}]
    [] OTHER -> [k : {1}]
Kind(op, r) == Decl(op, D).roles[r]
Inplace == {"sum", "sum_v", "saxpby", "saxpby_v", "add", "add_v", "brink", "brink_v", "brinkfix", "brinkfix_v"}
ScrOf(op, r) == IF Kind(op, r) = "v" THEN IF r = "scr" THEN "vs" ELSE "vm" ELSE IF r = "scr" THEN "ss" ELSE "sm"
\* the choices of fields for the roles: outputs differ from all inputs unless
\* the kernel is one that is used in place
Nth(kind, k) == CASE kind = "s" -> <<"s1", "s2", "s3">>[k] [] kind = "v" -> <<"v1", "v2", "v3">>[k] [] kind = "c" -> <<"c1", "c2", "c3">>[k]
Bind(op) == LET De == Decl(op, D) rs == DOMAIN De.roles free == rs \ {"scr", "mid", "chi"}
                Name(ix) == [r \in rs |-> IF r = "chi" THEN "chi" ELSE IF r \in {"scr", "mid"} THEN ScrOf(op, r) ELSE Nth(De.roles[r], ix[r])]
                fine(m) == \A x \in De.outs : \A y \in rs \ {x} : m[x] # m[y] \/ (op \in Inplace /\ x = "out" /\ y \in {"f", "g"})
            IN {m \in {Name(ix) : ix \in [free -> 1..3]} : fine(m)}
\* [ok, res]: may the call happen, and the abstraction of its output
Res(op, a, p) ==
  LET X(r) == ab[a[r]]
      Y(ok, ibits, res) == [ok |-> ok /\ ibits <= ICap /\ res.b <= Cap /\ res.e2 >= 0 /\ res.e3 >= 0, res |-> res]
      keep(x, old) == IF p.reset THEN x ELSE Merge(x, old)
  IN CASE op \in {"diff_flux", "diff_flux_v"} -> LET r == Up(X("f"), 4 + Bits(p.k)) IN Y(TRUE, r.b, keep(r, X("out")))
    [] op \in {"diff_step", "diff_step_v"} -> LET r == Up(X("f"), 4) IN Y(TRUE, r.b, r)
    [] op = "adv_flux" -> LET x == Less(X("f"), 1, 1) n == X("f").b + X("v").b IN
         Y(x.e2 >= 0 /\ x.e3 >= 0, n + 6, Up(Merge([x EXCEPT !.b = n + 3], X("out")), 1))
    [] op \in {"adv_step", "adv_step_v"} -> LET x == Less(X("f"), 1, 1) n == X("f").b + X("v").b IN Y(x.e2 >= 0 /\ x.e3 >= 0, n + 6, [x EXCEPT !.b = n + 4])
    [] op = "curl_in" -> LET r == Up(X("f"), 2 + Bits(p.k)) IN Y(TRUE, r.b, Merge(r, X("out")))
    [] op \in {"curl_out", "curl3"} -> LET r == Up(X("f"), 2 + Bits(p.k)) IN Y(TRUE, r.b, keep(r, X("out")))
    [] op = "div3" -> LET r == Up(X("f"), 3) IN Y(TRUE, r.b, keep(r, X("out")))
    [] op = "vort_force" -> LET r == Up(Merge(Up(X("f"), 2 + Bits(p.k)), X("w")), 1) IN Y(TRUE, r.b, r)
    [] op = "vort_pen" -> LET r == Up(Merge(Up(Merge(X("pv"), X("v")), 3 + Bits(p.k)), X("w")), 1) IN Y(TRUE, r.b, r)
    [] op = "stretch_flux" -> LET r == Up(X("w"), X("v").b + 3) IN Y(TRUE, r.b, r)
    [] op = "stretch_euler" -> LET r == Up(X("w"), X("v").b + 4) IN Y(TRUE, r.b, r)
    [] op = "stretch_rk3" -> LET r == Less(Up(X("w"), 3 * (X("v").b + 3)), 2, 1) IN Y(r.e2 >= 0 /\ r.e3 >= 0, r.b + 3, r)
    [] op \in {"brink", "brink_v"} -> LET r == Less(Merge(X("f"), X("t")), 1, 0) IN Y(r.e2 >= 0, r.b + 1, r)
    [] op \in {"brinkfix", "brinkfix_v"} -> LET r == Less(Merge(X("f"), Fixed), 1, 0) IN Y(r.e2 >= 0, r.b + 1, r)
    [] op \in {"sum", "sum_v"} -> LET r == Up(Merge(X("f"), X("g")), 1) IN Y(TRUE, r.b, r)
    [] op \in {"saxpby", "saxpby_v"} -> LET r == Up(Merge(X("f"), X("g")), 3) IN Y(TRUE, r.b, r)
    [] op \in {"set", "set_v"} -> Y(TRUE, 7, Fixed)
    [] op = "copy" -> Y(TRUE, X("f").b, X("f"))
    [] op \in {"cprod", "cross"} -> LET r == Up(Merge(X("f"), X("g")), 0) n == X("f").b + X("g").b + 1 IN Y(TRUE, n, [r EXCEPT !.b = n])
    [] op \in {"add", "add_v"} -> LET r == Up(Merge(X("f"), Fixed), 1) IN Y(TRUE, r.b, r)
    [] op \in {"ring", "ring_v"} -> LET r == Merge(X("out"), Fixed) IN Y(TRUE, r.b, r)
    [] op \in {"filter", "filter_v"} -> LET r == Less(Up(X("f"), 3), 6, 0) IN Y(r.e2 >= 0, r.b, r)
OutOf(op) == CHOOSE x \in Decl(op, D).outs : TRUE
\* what a user may write into a field: r values and multiplier m
Pokes == <<[r |-> 9, m |-> 1, b |-> 4, e2 |-> 0, e3 |-> 0], [r |-> 2, m |-> 1, b |-> 2, e2 |-> 0, e3 |-> 0],
           [r |-> 3, m |-> 12, b |-> 6, e2 |-> 2, e3 |-> 1], [r |-> 7, m |-> 192, b |-> 11, e2 |-> 6, e3 |-> 1]>>
PokeFor(op, r) == CASE op \in {"adv_flux", "adv_step", "adv_step_v"} -> IF r = "v" THEN 2 ELSE 3
                    [] op \in {"stretch_rk3", "stretch_euler", "stretch_flux"} -> IF r = "v" THEN 2 ELSE 3
                    [] op \in {"filter", "filter_v"} -> 4 [] op \in {"brink", "brink_v", "brinkfix", "brinkfix_v"} -> 3 [] OTHER -> 1
ScNames == {"ss", "sm", "vs", "vm"}
Init == /\ ab = [x \in Sc \cup Ve \cup Co \cup {"chi"} |-> Ab(4, 0, 0)]
        /\ plan = <<>> /\ pick = ""
Calls == {k \in 1..Len(plan) : plan[k].op # "poke"}
Choose == /\ pick = "" /\ Cardinality(Calls) < Len0 /\ pick' \in Menu /\ UNCHANGED <<ab, plan>>
\* writing to the inputs did not make the call possible
Stuck == LET n == Len(plan) IN n >= 3 /\ \A k \in (n - 2)..n : plan[k].op = "poke"
Call == /\ pick \notin {"", "done"}
        /\ LET B == {<<m, p>> \in Bind(pick) \X Opts(pick) : Res(pick, m, p).ok} IN
           IF B # {}
           THEN \E x \in {RandomElement(B)}, i \in {RandomElement({0, 1})} : LET r == Res(pick, x[1], x[2]) IN
                /\ plan' = Append(plan, [op |-> pick, a |-> x[1], p |-> x[2], inst |-> i])
                /\ ab' = [ab EXCEPT ![x[1][OutOf(pick)]] = r.res]
                /\ pick' = ""
           ELSE IF Stuck THEN pick' = "" /\ UNCHANGED <<ab, plan>>   \* out of reach of this precision
           ELSE \* write to the inputs first, then the call is possible
                \E m \in {RandomElement(Bind(pick))} :
                LET ins == {r \in Inputs(pick, D) : r # "chi"}
                    bufs == {m[r] : r \in ins}
                    pk(b) == PokeFor(pick, CHOOSE r \in ins : m[r] = b)
                IN /\ plan' = Append(plan, [op |-> "poke", a |-> m, fill |-> [b \in bufs |-> [r |-> Pokes[pk(b)].r, m |-> Pokes[pk(b)].m]]])
                   /\ ab' = [b \in DOMAIN ab |-> IF b \in bufs THEN Ab(Pokes[pk(b)].b, Pokes[pk(b)].e2, Pokes[pk(b)].e3) ELSE ab[b]]
                   /\ UNCHANGED pick
Emit == /\ pick = "" /\ Cardinality(Calls) >= Len0 /\ pick' = "done"
        /\ PrintT("PLAN " \o ToJson(plan)) /\ UNCHANGED <<ab, plan>>
Next == Choose \/ Call \/ Emit
Spec == Init /\ [][Next]_vars
\* the abstraction never admits values that leave the exact range
Sane == \A b \in DOMAIN ab : ab[b].b <= Cap /\ ab[b].e2 >= 0 /\ ab[b].e3 >= 0
=============================================================================
