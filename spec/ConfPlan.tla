------------------------------ MODULE ConfPlan ------------------------------
(***************************************************************************)
(* Enumerates the configurations and calls to try.  One initial state per  *)
(* plan; Salt varies what the enumeration leaves open.                     *)
(***************************************************************************)
EXTENDS Config, Json
CONSTANTS Salt, Valid
VARIABLES plan, done
H(x) == ((x % 10007) * 7919 + (Salt % 10007) * 104729 + 12345) % 1000003
PickAt(s, x) == s[1 + (H(x) % Len(s))]
RECURSIVE Seq0(_)
Seq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq0(S \ {x})
TSeq == TLCEval(Seq0(Targets))
TIdx(t) == CHOOSE i \in 1..Len(TSeq) : TSeq[i] = t
OptIdx(t, n) == CHOOSE i \in 1..Len(OptsOf(t)) : OptsOf(t)[i].name = n
\* the k-th valid configuration of t
GoodConf(t, k) == [n \in OptNames(t) |-> PickAt(Validated(t, n).good, 31 * TIdx(t) + 7 * OptIdx(t, n) + 101 * k)]
OneBad == {[what |-> "build", target |-> t, o |-> [GoodConf(t, i + 10 * b) EXCEPT ![OptsOf(t)[i].name] = OptsOf(t)[i].bad[b]]] :
             <<t, i, b>> \in {x \in Targets \X (1..6) \X (1..8) : x[2] <= Len(OptsOf(x[1])) /\ x[3] <= Len(OptsOf(x[1])[x[2]].bad)}}
\* two bad values at once: still refused
Bads(t) == {i \in 1..Len(OptsOf(t)) : Len(OptsOf(t)[i].bad) > 0}
TwoBad == {[what |-> "build", target |-> t, o |-> [[GoodConf(t, i + 7 * j) EXCEPT ![OptsOf(t)[i].name] = PickAt(OptsOf(t)[i].bad, 3 * i + j)]
                                                  EXCEPT ![OptsOf(t)[j].name] = PickAt(OptsOf(t)[j].bad, i + 5 * j)]] :
             <<t, i, j>> \in {x \in Targets \X (1..6) \X (1..6) : x[2] \in Bads(x[1]) /\ x[3] \in Bads(x[1]) /\ x[2] < x[3]}}
\* each valid value of each option of the classes and a share of those of the kernels
Goods == {[what |-> "build", target |-> t, o |-> [GoodConf(t, i + 10 * b) EXCEPT ![OptsOf(t)[i].name] = OptsOf(t)[i].good[b]]] :
             <<t, i, b>> \in {x \in Targets \X (1..6) \X (1..4) : /\ x[2] <= Len(OptsOf(x[1])) /\ x[3] <= Len(OptsOf(x[1])[x[2]].good)
                                                                  /\ (x[1] \in Classes \/ H(1000 * TIdx(x[1]) + 10 * x[2] + x[3]) % 100 < Valid)}}
\* --------------------------------------------------------------- calls
OSeq == TLCEval(Seq0(Ops2 \cup Ops3))
OIdx(o) == CHOOSE i \in 1..Len(OSeq) : OSeq[i] = o
Sizes2 == <<<<6, 7>>, <<7, 6>>, <<9, 6>>, <<8, 8>>, <<6, 10>>>>
Sizes3 == <<<<6, 7, 8>>, <<7, 6, 6>>, <<6, 6, 9>>, <<7, 7, 7>>, <<8, 6, 7>>>>
One(r, f) == [faults |-> [x \in {r} |-> f]]
Closing(op) == op \in {"stretch_rk3", "filter", "filter_v", "pen_bound", "pen_bound_v"}
\* for kernels that hold arrays each call needs a new kernel: then only some
Some(op, x) == ~Closing(op) \/ H(x) % 100 < Valid
FSeq(d) == Seq0(FaultsOf(d))
Tried(op, d) == Args(op, d) \ {"zg"}
RSeq(op, d) == Seq0(Tried(op, d))
CallSet(op, d, fx, size, k) == LET rs == RSeq(op, d) fs == FSeq(d) IN
  {[faults |-> [x \in {} |-> ""]], [faults |-> [x \in {} |-> ""], sh |-> PickAt(IF d = 2 THEN Sizes2 ELSE Sizes3, k + 1)]}
  \cup {One(rs[i], fs[j]) : <<i, j>> \in {x \in (1..Len(rs)) \X (1..Len(fs)) : Some(op, k + 17 * x[1] + 3 * x[2]) /\ ~(rs[x[1]] \in Held(op, d) /\ fs[x[2]] = "int")}}
  \cup {One(r, "fewer") : r \in {q \in DOMAIN Decl(op, d).roles : Decl(op, d).roles[q] = "v" /\ q \notin Decl(op, d).scr /\ ~Closing(op)}}
  \cup (IF Closing(op) THEN {} ELSE {[faults |-> [r \in DOMAIN Decl(op, d).roles |-> fs[j]]] : j \in 1..Len(fs)})
  \cup {[faults |-> [x \in {rs[i], rs[(i % Len(rs)) + 1]} |-> PickAt(fs, k + i + (IF x = rs[i] THEN 0 ELSE j))]] :
           <<i, j>> \in {x \in (1..Len(rs)) \X (0..1) : ~Closing(op) /\ Held(op, d) = {}}}
  \cup {[faults |-> [x \in {"f"} |-> "prec"]] : q \in {1} \cap (IF op = "filter" THEN {1} ELSE {})}
WidthOf(op, d, k) == IF op \in {"ring", "ring_v"} THEN 1 + (H(k) % 3) ELSE 1 + (H(k) % 2)
Calls == {[what |-> "call", op |-> x[1], dim |-> x[2], fx |-> x[3], dt |-> PickAt(<<"f32", "f64">>, 40 * OIdx(x[1]) + x[2] + (IF x[3] THEN 20 ELSE 0)),
           nt |-> PickAt(<<0, 0, 2>>, OIdx(x[1]) + 3 * x[2]), k |-> OIdx(x[1])] : x \in {y \in (Ops2 \cup Ops3) \X {2, 3} \X BOOLEAN : y[1] \in OpsOf(y[2])}}
Fill(c) == LET k == 200 * c.k + 50 * c.dim + (IF c.fx THEN 7 ELSE 0) size == PickAt(IF c.dim = 2 THEN Sizes2 ELSE Sizes3, k) IN
  [what |-> "call", op |-> c.op, dim |-> c.dim, fx |-> c.fx, dt |-> c.dt, nt |-> c.nt, sh |-> size,
   o |-> [width |-> WidthOf(c.op, c.dim, k), order |-> 1 + (H(k + 5) % 2), type |-> PickAt(<<"multiplicative", "convolution">>, k), dx |-> "1", bw |-> "1"],
   calls |-> Seq0(CallSet(c.op, c.dim, c.fx, size, k))]
Init == plan \in OneBad \cup TwoBad \cup Goods \cup Calls /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED plan
        /\ PrintT("PLAN " \o ToJson(IF plan.what = "call" THEN Fill(plan) ELSE plan))
Spec == Init /\ [][Next]_<<plan, done>>
=============================================================================
