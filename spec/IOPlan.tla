------------------------------- MODULE IOPlan -------------------------------
(***************************************************************************)
(* Generator of histories for C23-C25: random behaviours of IOSpec, with    *)
(* registrations and loads that match and ones that do not.                 *)
(***************************************************************************)
EXTENDS IOSpec, Json, Randomization
CONSTANTS Len0, Bad
Pick(S) == RandomElement(S)
VARIABLES D, size, nn, reg, F, dead, plan, out
vars == <<D, size, nn, reg, F, dead, plan, out>>
Ios == {"i1", "i2", "i3"}
Files == {"a.h5", "b.h5", "c", "sub/d.h5", "e.v2.h5", "x.h5dir/f.h5", "g.h5.bak"}
Ks == {"1", "2", "3", "4"}
ClsE == {"es", "ev", "fs", "fv"}
ClsL == {"lp", "ls", "lv", "mp", "ms", "mv"}
ClsX == {"x1", "x2", "x3", "x4", "x5", "x6", "x7"}
Cls(a) == CHOOSE c \in ClsE \cup ClsL \cup ClsX : \E k \in Ks : a = c \o k
IdxOf(a) == CHOOSE k \in Ks : a = Cls(a) \o k
Flip(k) == CASE k = "1" -> "3" [] k = "2" -> "4" [] k = "3" -> "1" [] k = "4" -> "2"
Alt(a) == Cls(a) \o Flip(IdxOf(a))
ShC(c) ==
  CASE c = "es" -> size[1] [] c = "ev" -> <<D>> \o size[1] [] c = "fs" -> size[2] [] c = "fv" -> <<D>> \o size[2]
    [] c \in {"lp", "lv"} -> <<D, nn[1]>> [] c = "ls" -> <<nn[1]>> [] c \in {"mp", "mv"} -> <<D, nn[2]>> [] c = "ms" -> <<nn[2]>>
    [] c = "x1" -> size[1] \o <<D>> [] c = "x2" -> <<D + 1>> \o size[1] [] c = "x3" -> Rev(size[1])
    [] c = "x4" -> <<nn[1], D>> [] c = "x5" -> <<nn[1] + 1>> [] c = "x6" -> <<D, nn[1], 1>> [] c = "x7" -> <<5 - D, nn[1]>>
Sh(a) == ShC(Cls(a))
Arrays(cs) == {c \o k : c \in cs, k \in Ks}
Sizes(d) == IF d = 2 THEN {<<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 4>>, <<2, 2>>, <<5, 3>>, <<40, 33>>, <<3, 70>>, <<150, 2>>} ELSE {<<2, 3, 2>>, <<3, 3, 3>>, <<1, 2, 3>>, <<3, 1, 2>>, <<2, 2, 3>>, <<12, 9, 14>>, <<2, 30, 3>>}
\* (sizes are drawn by the first step: TLC draws initial states once for all behaviours)
Init == D = 0 /\ out = FALSE /\ size = <<>> /\ nn = <<>> /\ reg = [i \in {} |-> 0] /\ F = None /\ dead = {} /\ plan = <<>>
Start == /\ D = 0 /\ UNCHANGED <<out, reg, F, dead, plan>>
         /\ \E d \in {Pick({2, 3})} : /\ D' = d
              /\ \E a \in {Pick(Sizes(d))} : \E b \in {Pick(Sizes(d) \ {a})} : size' = <<a, b>>
              /\ nn' = Pick({<<1, 4>>, <<3, 1>>, <<2, 3>>, <<3, 2>>, <<7, 2>>, <<1, d>>, <<d, 1>>, <<4, 7>>, <<1, 2>>, <<150, 3>>, <<2, 700>>, <<2500, 11>>})
Alive == DOMAIN reg \ dead
Free(r, cs) == Arrays(cs) \ Regs(r)
Old == Len(plan)
Say(x) == plan' = Append(plan, x)
NewIO == \E i \in {Pick(Ios)} : /\ reg' = Put(reg, i, NewReg(D)) /\ dead' = dead \ {i} /\ Say([op |-> "new", io |-> i]) /\ F' = F
Par(s, o, d) == [size |-> s, origin |-> o, dx |-> d]
DefineIO == \E i \in {Pick(Alive)} : \E s \in {IF DOMAIN reg[i].ef # {} THEN reg[i].par.size ELSE Pick({size[1], size[1], size[1], size[2]})} : \E o \in {Pick({"o0", "o0", "o0", "o1"})}, d \in {Pick({"d0", "d0", "d0", "d1"})} :
   /\ reg' = [reg EXCEPT ![i] = Define(@, Par(s, o, d))] /\ Say([op |-> "define", io |-> i, par |-> Par(s, o, d)])
   /\ UNCHANGED <<F, dead>>
FieldNames == {"u", "w", "T", "p_0"}
FN(i) == <<"u", "w", "T", "p_0", "u_0">>[i]
\* n fields with distinct names and arrays out of the classes cs
Some(r, cs, n) == LET as == RandomSubset(n, Free(r, cs)) s == CHOOSE f \in [1..n -> as] : \A x, y \in 1..n : x # y => f[x] # f[y]
                      k == Pick(0..4)
                  IN [j \in 1..n |-> [name |-> FN(((k + j) % 5) + 1), arr |-> s[j]]]
Fs(fields) == [j \in 1..Len(fields) |-> <<fields[j].name, fields[j].arr>>]
Flaw == plan = plan /\ Pick(1..100) <= Bad   \* (state level, or TLC would draw it once for all)
\* names keep the class of array they first had, mostly, so that files match
AddE == \E i \in {IF \E q \in Alive : reg[q].def THEN Pick({q \in Alive : reg[q].def}) ELSE Pick(Alive)}, flaw \in {Flaw}, n \in {Pick(1..2)} :
   LET r == reg[i] cs == IF flaw THEN {"es", "ev", "fs", "x1", "x2", "x3"} ELSE IF r.par.size = size[2] THEN {"fs", "fv"} ELSE {"es", "ev"} IN
   /\ r.def \/ flaw
   /\ Cardinality(Free(r, cs)) >= n
   /\ \E fields \in {Some(r, cs, n)} : LET ok == AddEulOK(r, Fs(fields), Sh) IN
      /\ Say([op |-> "adde", io |-> i, fields |-> fields])
      /\ reg' = IF ok THEN [reg EXCEPT ![i] = AddEul(r, Fs(fields))] ELSE reg
      /\ dead' = IF ok \/ ~r.def THEN dead ELSE dead \cup {i}
      /\ F' = F
AddL == \E i \in {Pick(Alive)}, flaw \in {IF Flaw THEN Pick({"grid", "field"}) ELSE ""}, n \in {Pick(0..2)}, m \in {Pick({TRUE, FALSE})}, conn \in {Pick({TRUE, FALSE, FALSE})}, nm \in {Pick({"", "", "rod", "body", "rod", "rod_body", "Scalar"})} :
   LET r == reg[i] again == nm \in DOMAIN r.lg
       gs == IF flaw = "grid" THEN {"x4", "x6", "x7", "x5"} ELSE IF m THEN {"mp"} ELSE {"lp"} IN
   /\ nm = "" => AutoName(r) \notin DOMAIN r.lg
   /\ Cardinality(Free(r, gs)) > 0
   /\ \E g \in {IF again THEN r.lg[nm].arr ELSE Pick(Free(r, gs))} :
      LET cs == IF flaw # "" THEN {"ls", "x4", "x5", "x6", "ms", "x7"} ELSE IF Sh(g) = <<D, nn[1]>> THEN {"ls", "lv"} ELSE {"ms", "mv"} IN
      /\ Cardinality(Free(r, cs) \ {g}) >= n
      /\ \E fields \in {Some(r, cs, n)} : LET ok == AddLagOK(r, g, Fs(fields), Sh) IN
         /\ \A j \in 1..Len(fields) : fields[j].arr # g
         /\ Say([op |-> "addl", io |-> i, name |-> nm, grid |-> g, conn |-> conn, fields |-> fields])
         /\ reg' = IF ok THEN [reg EXCEPT ![i] = AddLag(r, nm, g, conn, Fs(fields))] ELSE reg
         /\ dead' = IF ok \/ ~GridOK(D, Sh(g)) THEN dead ELSE dead \cup {i}
         /\ F' = F
\* a second object registers (some of) what another one has, with arrays of its own
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* another class of array in the same role: other kind, or other size
Tw(tw, c) ==
  CASE tw = "kind" -> (CASE c = "es" -> "ev" [] c = "ev" -> "es" [] c = "fs" -> "fv" [] c = "fv" -> "fs"
                         [] c = "ls" -> "lv" [] c = "lv" -> "ls" [] c = "ms" -> "mv" [] c = "mv" -> "ms" [] OTHER -> c)
    [] tw = "size" -> (CASE c = "es" -> "fs" [] c = "ev" -> "fv" [] c = "fs" -> "es" [] c = "fv" -> "ev" [] OTHER -> c)
    [] tw = "nodes" -> (CASE c = "lp" -> "mp" [] c = "mp" -> "lp" [] c = "ls" -> "ms" [] c = "lv" -> "mv" [] c = "ms" -> "ls" [] c = "mv" -> "lv" [] OTHER -> c)
    [] OTHER -> c
TwPar(tw, p) == IF tw = "size" THEN [p EXCEPT !.size = IF @ = size[1] THEN size[2] ELSE size[1]]
                ELSE IF tw = "origin" THEN [p EXCEPT !.origin = IF @ = "o0" THEN "o1" ELSE "o0"]
                ELSE IF tw = "dx" THEN [p EXCEPT !.dx = IF @ = "d0" THEN "d1" ELSE "d0"] ELSE p
Mirror == \E i \in {IF \E q \in Alive : DOMAIN reg[q].lg # {} /\ Pick(1..4) # 1 THEN Pick({q \in Alive : DOMAIN reg[q].lg # {}} \cup {q \in Alive : \A x \in Alive : DOMAIN reg[x].lg = {}}) ELSE Pick(Alive)} : \E j \in {Pick(Ios \ {i})}, full \in {Pick({TRUE, TRUE, FALSE})}, own \in {Pick({TRUE, TRUE, FALSE})},
             tw \in {IF Flaw THEN <<"kind", "size", "nodes", "nodes", "nodes", "origin", "dx">>[Pick(1..7)] ELSE ""} :
   \E go \in {IF tw # "" THEN Pick(1..4) # 1 ELSE Pick(1..2) = 1}, p \in {Pick(Files)}, part \in {IF tw = "nodes" THEN "lag" ELSE Pick({"all", "lag", "eul"})} :   \* save the one and load the other at once
   LET r == reg[i]
       file == FileOf(r, 3, Sh, LAMBDA a : a)
       \* a bijection on the arrays of a registry, so no array is registered twice
       To(a) == Tw(tw, Cls(a)) \o (IF own THEN Flip(IdxOf(a)) ELSE IdxOf(a))
       rpar == TwPar(tw, r.par)
       keep(S) == IF full \/ S = {} THEN S ELSE RandomSubset(Pick(0..Cardinality(S)), S)
       new == NewReg(D) IN
   \E es \in {IF part = "lag" THEN <<>> ELSE SeqOf(keep(DOMAIN r.ef))}, gs \in {IF part = "eul" THEN <<>> ELSE IF tw = "nodes" THEN SeqOf(DOMAIN r.lg) ELSE SeqOf(keep(DOMAIN r.lg))} :
   LET ef == [k \in 1..Len(es) |-> [name |-> es[k], arr |-> To(r.ef[es[k]])]]
       lf(g) == LET q == SeqOf(keep(DOMAIN r.lg[g].f)) IN [k \in 1..Len(q) |-> [name |-> q[k], arr |-> To(r.lg[g].f[q[k]])]] IN
   \E lfs \in {[k \in 1..Len(gs) |-> lf(gs[k])]} :
   LET steps == <<[op |-> "new", io |-> j]>>
               \o (IF r.def THEN <<[op |-> "define", io |-> j, par |-> rpar]>> ELSE <<>>)
               \o (IF Len(ef) > 0 THEN <<[op |-> "adde", io |-> j, fields |-> ef]>> ELSE <<>>)
               \o [k \in 1..Len(gs) |-> [op |-> "addl", io |-> j, name |-> gs[k], grid |-> To(r.lg[gs[k]].arr), conn |-> (r.lg[gs[k]].conn = "yes"), fields |-> lfs[k]]]
       RECURSIVE Lags(_, _)
       Lags(x, k) == IF k > Len(gs) THEN x ELSE Lags(AddLag(x, gs[k], To(r.lg[gs[k]].arr), r.lg[gs[k]].conn = "yes", Fs(lfs[k])), k + 1) IN
   /\ i # j
   /\ plan' = plan \o steps \o (IF go THEN <<[op |-> "mutate", arrays |-> SeqOf(Regs(r)), how |-> 1], [op |-> "save", io |-> i, file |-> p, time |-> 3]>>
                                          \o (IF own THEN <<>> ELSE <<[op |-> "mutate", arrays |-> SeqOf(Regs(r)), how |-> 3]>>)
                                          \o <<[op |-> "load", io |-> j, file |-> p]>> ELSE <<>>)
   /\ reg' = LET rj == Lags(AddEul(IF r.def THEN Define(new, rpar) ELSE new, Fs(ef)), 1)
             IN Put(reg, j, IF go THEN AfterLoad(rj, file) ELSE rj)
   /\ dead' = dead \ {j} /\ F' = IF go THEN Put(F, p, file) ELSE F
Used == UNION {Regs(reg[i]) : i \in Alive}
Mutate == \E n \in {Pick(1..3)} : Used # {} /\ \E S \in {RandomSubset(IF n = 3 THEN Cardinality(Used) ELSE IF Cardinality(Used) < n THEN 1 ELSE n, Used)} :
   /\ Say([op |-> "mutate", arrays |-> SeqOf(S), how |-> n]) /\ UNCHANGED <<reg, F, dead>>
Save == \E i \in {Pick(Alive)}, p \in {Pick(IF DOMAIN F # {} /\ Pick(1..3) = 1 THEN DOMAIN F ELSE Files)}, tm \in {Pick(0..7)} :
   /\ Say([op |-> "save", io |-> i, file |-> p, time |-> tm])
   /\ F' = Put(F, p, FileOf(reg[i], tm, Sh, LAMBDA a : a)) /\ UNCHANGED <<reg, dead>>
Fitting(i) == {p \in DOMAIN F : LoadOK(reg[i], F[p], Sh)}
Load == \E i \in {Pick(Alive)} : \E p \in {IF Fitting(i) # {} /\ Pick(1..100) > Bad THEN Pick(Fitting(i)) ELSE Pick(DOMAIN F \cup {"a.h5"})} :
   /\ Say([op |-> "load", io |-> i, file |-> p])
   /\ reg' = IF p \in Fitting(i) THEN [reg EXCEPT ![i] = AfterLoad(@, F[p])] ELSE reg
   /\ UNCHANGED <<F, dead>>
Copy == DOMAIN F # {} /\ \E p \in {Pick(DOMAIN F)}, q \in {Pick({"copy1.h5", "copy2.h5"})} :
   /\ p # q /\ Say([op |-> "copy", file |-> p, to |-> q]) /\ F' = Put(F, q, F[p]) /\ UNCHANGED <<reg, dead>>
Damage == DOMAIN F # {} /\ \E p \in {Pick(DOMAIN F)}, what \in {Pick({"whole", "field", "eulerian", "params", "grid", "lfield", "field", "grid", "lfield"})} :
   LET f == F[p] gs == IF what = "lfield" THEN {g \in DOMAIN f.lg : DOMAIN f.lg[g].f # {}} ELSE DOMAIN f.lg IN
   /\ what = "field" => DOMAIN f.ef # {}
   /\ what \in {"grid", "lfield"} => gs # {}
   /\ what \in {"eulerian", "params"} => f.def
   /\ \E g \in {IF what \in {"grid", "lfield"} THEN Pick(gs) ELSE ""} :
      \E n \in {CASE what = "field" -> Pick(DOMAIN f.ef) [] what = "lfield" -> Pick(DOMAIN f.lg[g].f) [] OTHER -> ""} :
      /\ Say([op |-> "damage", file |-> p, what |-> what, grid |-> g, name |-> n,
              kind |-> (CASE what = "field" -> f.ef[n].kind [] what = "lfield" -> f.lg[g].f[n].kind [] OTHER -> "")])
      /\ F' = Damaged(F, p, what, g, n) /\ UNCHANGED <<reg, dead>>
Otherwise == IF DOMAIN F = {} THEN Save ELSE Save \/ Load \/ Mutate
Act(z) ==
  IF Alive = {} THEN NewIO
  ELSE IF Len(plan) <= 5 THEN
    (CASE Len(plan) = 1 /\ z <= 85 -> DefineIO
       [] Len(plan) = 2 /\ z <= 85 -> AddE \/ AddL
       [] Len(plan) = 3 /\ z <= 85 -> AddL \/ AddE
       [] Len(plan) = 4 /\ z <= 60 -> AddE \/ AddL
       [] Len(plan) = 5 /\ z <= 60 -> (IF Bad >= 40 THEN Mirror ELSE Mutate) \/ AddL
       [] OTHER -> IF z <= 95 THEN AddL \/ DefineIO ELSE NewIO)
  ELSE CASE z <= 3 -> NewIO [] z <= 7 -> DefineIO [] z <= 16 -> AddE [] z <= 22 -> AddL \/ Otherwise
    [] z <= (IF Bad >= 40 THEN 42 ELSE 34) -> Mirror [] z <= 50 -> Mutate \/ Otherwise [] z <= 68 -> Save [] z <= 91 -> (IF DOMAIN F = {} THEN Save ELSE Load)
    [] z <= 94 -> Copy \/ Save [] OTHER -> IF Bad = 0 THEN Save ELSE Damage \/ Save
Emit == /\ Len(plan) >= Len0 /\ ~out /\ out' = TRUE
        /\ PrintT("PLAN " \o ToJson([dim |-> D, ev |-> plan, shapes |-> [a \in Arrays(ClsE \cup ClsL \cup ClsX) |-> Sh(a)]]))
        /\ UNCHANGED <<D, size, nn, reg, F, dead, plan>>
Next == \/ Start
        \/ /\ D # 0 /\ Len(plan) < Len0 /\ out' = FALSE /\ UNCHANGED <<D, size, nn>>
           /\ \E z \in {Pick(1..100)} : Act(z)
        \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
