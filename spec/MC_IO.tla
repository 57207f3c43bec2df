-------------------------------- MODULE MC_IO --------------------------------
(***************************************************************************)
(* Laws of IOSpec on every history up to a depth (C23, C24, C25), with two  *)
(* IO objects, one file, names that are close to each other's data sets.    *)
(***************************************************************************)
EXTENDS IOSpec
CONSTANT Deep
D == 2
S1 == <<2, 1>>
Shapes == [s1 |-> S1, s2 |-> S1, v1 |-> <<2, 2, 1>>, p1 |-> <<2, 2>>, p2 |-> <<2, 3>>, l1 |-> <<2>>, m1 |-> <<2, 2>>, k1 |-> <<3>>, bad |-> <<1, 2>>]
Arr == DOMAIN Shapes
Sh(a) == Shapes[a]
Ios == {"i", "j"}
Pars == {[size |-> S1, origin |-> o, dx |-> "d"] : o \in {"o0", "o1"}}
VARIABLES reg, ver, F, dep
vars == <<reg, ver, F, dep>>
Tok(v, a) == [h |-> <<a, v[a]>>, c |-> <<<<a, v[a], 1>>, <<a, v[a], 2>>>>]
C(a) == Tok(ver, a)
Init == reg = [i \in Ios |-> NewReg(D)] /\ ver = [a \in Arr |-> 0] /\ F = None /\ dep = 0
DoDefine == \E i \in Ios, p \in Pars : reg' = [reg EXCEPT ![i] = Define(@, p)] /\ UNCHANGED <<ver, F>>
DoEul == \E i \in Ios, n \in {"u", "u_0"}, a \in {"s1", "v1", "bad"} : /\ a \notin Regs(reg[i]) /\ AddEulOK(reg[i], <<<<n, a>>>>, Sh)
                                                            /\ reg' = [reg EXCEPT ![i] = AddEul(@, <<<<n, a>>>>)] /\ UNCHANGED <<ver, F>>
DoLag == \E i \in Ios, g \in {"", "rod"}, p \in {"p1", "p2"}, a \in {"l1", "m1", "k1", "-"} :
   LET fs == IF a = "-" THEN <<>> ELSE <<<<"u", a>>>> IN
   /\ p \notin Regs(reg[i]) /\ a \notin Regs(reg[i]) /\ AddLagOK(reg[i], p, fs, Sh)
   /\ g \in DOMAIN reg[i].lg => Sh(reg[i].lg[g].arr) = Sh(p)
   /\ reg' = [reg EXCEPT ![i] = AddLag(@, g, p, p = "p2", fs)] /\ UNCHANGED <<ver, F>>
DoMutate == \E a \in {"s1", "v1", "p1", "m1"} : ver[a] = 0 /\ ver' = [ver EXCEPT ![a] = 1] /\ UNCHANGED <<reg, F>>
DoSave == \E i \in Ios : F' = Put(F, "f", FileOf(reg[i], ToString(dep), Sh, C)) /\ UNCHANGED <<reg, ver>>
Next == dep < (IF Deep THEN 5 ELSE 4) /\ dep' = dep + 1 /\ (DoDefine \/ DoEul \/ DoLag \/ DoMutate \/ DoSave)
Spec == Init /\ [][Next]_vars
\* C23: what is saved is what is loaded, by any object with the same names
RoundTrip == \A i \in Ios : LET r == reg[i] f == FileOf(r, "t", Sh, C) IN
   /\ LoadOK(r, f, Sh)
   /\ \A a \in Regs(r) : Loaded(r, f, a) = C(a)
   /\ LET r2 == AfterLoad(r, f) IN /\ FileOf(r2, "t", Sh, C) = f
Foreign == "f" \in DOMAIN F => \A i \in Ios : LoadOK(reg[i], F["f"], Sh) =>
   \A a \in Regs(reg[i]) : LET c == Loaded(reg[i], F["f"], a) IN \E v \in [Arr -> {0, 1}] : \E b \in Arr : c = Tok(v, b) /\ Sh(b) = Sh(a)
\* C24: a load is refused as soon as one registered thing is not in the file, and only then
Refused == \A i \in Ios : LET r == reg[i] f == FileOf(r, "t", Sh, C) P == [x \in {"f"} |-> f] IN
   /\ \A n \in DOMAIN r.ef : ~LoadOK(r, Damaged(P, "f", "field", "", n)["f"], Sh)
   /\ \A g \in DOMAIN r.lg : /\ ~LoadOK(r, Damaged(P, "f", "grid", g, "")["f"], Sh)
                             /\ \A n \in DOMAIN r.lg[g].f : ~LoadOK(r, Damaged(P, "f", "lfield", g, n)["f"], Sh)
   /\ DOMAIN r.ef # {} => /\ ~LoadOK(r, Damaged(P, "f", "eulerian", "", "")["f"], Sh)
                          /\ \A p \in Pars : p # r.par => ~LoadOK(Define(r, p), f, Sh)
   /\ LoadOK(NewReg(D), f, Sh)
   \* smaller registries accept whatever the larger one accepts
   /\ \A g \in DOMAIN r.lg : LoadOK([r EXCEPT !.lg = Less(@, g)], f, Sh)
   /\ \A n \in DOMAIN r.ef : LoadOK([r EXCEPT !.ef = Less(@, n)], f, Sh)
\* C25: every component has a data set of its own, no two share one
Layout == \A i \in Ios : LET r == reg[i] f == FileOf(r, "t", Sh, C) E == EulSets(r, f) L == LagSets(f)
     RECURSIVE Count(_)
     Count(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN (IF f.ef[n].kind = "Vector" THEN D ELSE 1) + Count(S \ {n})
     RECURSIVE CountL(_)
     CountL(S) == IF S = {} THEN 0 ELSE LET g == CHOOSE g \in S : TRUE IN 1 + Cardinality(DOMAIN f.lg[g].f) + CountL(S \ {g})
   IN /\ Cardinality({x.path : x \in E \cup L}) = Cardinality(E) + Cardinality(L)
      /\ Cardinality(E) = Count(DOMAIN f.ef) /\ Cardinality(L) = CountL(DOMAIN f.lg)
      /\ ConnMust(f) \subseteq ConnMay(f) /\ ConnMay(f) \cap {x.path : x \in E \cup L} = {}
=============================================================================
