------------------------------- MODULE IOSpec -------------------------------
(***************************************************************************)
(* Saving and loading of fields (C23, C24, C25).                           *)
(*                                                                         *)
(* An IO object is a registry: the Eulerian grid (size, origin, spacing),   *)
(* Eulerian fields by name, Lagrangian grids by name and their fields by    *)
(* name, each bound to an array.  An array is a shape and a content; the    *)
(* content is opaque: a token for the whole and one per leading component.  *)
(* A file holds contents under names.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Abs(x) == IF x < 0 THEN -x ELSE x
\* |x - y| <= t, also where x - y leaves the 32 bit integers
Within32(x, y, t) == IF (x < 0) = (y < 0) THEN Abs(x - y) <= t
                     ELSE x <= t /\ -t <= x /\ y <= t /\ -t <= y /\ Abs(x - y) <= t
Last(s) == s[Len(s)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* ---------------------------------------------------------- classification
EulKind(dim, size, shape) == IF shape = size THEN "Scalar" ELSE IF shape = <<dim>> \o size THEN "Vector" ELSE "bad"
GridOK(dim, shape) == Len(shape) = 2 /\ shape[1] = dim
LagKind(gshape, shape) == IF shape = <<gshape[2]>> THEN "Scalar" ELSE IF shape = gshape THEN "Vector" ELSE "bad"
\* ---------------------------------------------------------------- registry
NewReg(dim) == [dim |-> dim, def |-> FALSE, par |-> [size |-> <<>>, origin |-> "", dx |-> ""], ef |-> None, lg |-> None, cnt |-> 0]
Define(r, par) == [r EXCEPT !.def = TRUE, !.par = par]
\* fields: sequence of <<name, array>>; Sh(a) the shape of an array
AddEulOK(r, fields, Sh(_)) == r.def /\ \A i \in 1..Len(fields) : EulKind(r.dim, r.par.size, Sh(fields[i][2])) # "bad"
RECURSIVE PutFields(_, _, _)
PutFields(f, fields, i) == IF i > Len(fields) THEN f ELSE PutFields(Put(f, fields[i][1], fields[i][2]), fields, i + 1)
AddEul(r, fields) == [r EXCEPT !.ef = PutFields(@, fields, 1)]
AddLagOK(r, grid, fields, Sh(_)) == GridOK(r.dim, Sh(grid)) /\ \A i \in 1..Len(fields) : LagKind(Sh(grid), Sh(fields[i][2])) # "bad"
AutoName(r) == "Lagrangian_grid_" \o ToString(r.cnt)
AddLag(r, name, grid, conn, fields) ==
  LET nm == IF name = "" THEN AutoName(r) ELSE name
      old == IF nm \in DOMAIN r.lg THEN r.lg[nm] ELSE [arr |-> grid, conn |-> "no", f |-> None]
  IN [r EXCEPT !.cnt = IF name = "" THEN @ + 1 ELSE @,
               !.lg = Put(@, nm, [arr |-> grid, conn |-> IF conn THEN "yes" ELSE old.conn, f |-> PutFields(old.f, fields, 1)])]
\* ------------------------------------------------------------ save and load
\* C(a) the content of an array
FileOf(r, time, Sh(_), C(_)) ==
  [time |-> time, def |-> r.def, par |-> r.par,
   ef |-> [n \in DOMAIN r.ef |-> [kind |-> EulKind(r.dim, r.par.size, Sh(r.ef[n])), c |-> C(r.ef[n])]],
   lg |-> [g \in DOMAIN r.lg |-> LET x == r.lg[g] IN
            [shape |-> Sh(x.arr), c |-> C(x.arr), conn |-> x.conn,
             f |-> [n \in DOMAIN x.f |-> [kind |-> LagKind(Sh(x.arr), Sh(x.f[n])), c |-> C(x.f[n])]]]]]
LoadOK(r, file, Sh(_)) ==
  /\ DOMAIN r.ef # {} => /\ file.def /\ file.par = r.par
                         /\ \A n \in DOMAIN r.ef : n \in DOMAIN file.ef /\ file.ef[n].kind = EulKind(r.dim, r.par.size, Sh(r.ef[n]))
  /\ \A g \in DOMAIN r.lg : /\ g \in DOMAIN file.lg /\ file.lg[g].shape = Sh(r.lg[g].arr)
                            /\ \A n \in DOMAIN r.lg[g].f : n \in DOMAIN file.lg[g].f /\ file.lg[g].f[n].kind = LagKind(Sh(r.lg[g].arr), Sh(r.lg[g].f[n]))
\* the arrays of a registry, and what a load puts into each
Regs(r) == {r.ef[n] : n \in DOMAIN r.ef} \cup {r.lg[g].arr : g \in DOMAIN r.lg}
           \cup UNION {{r.lg[g].f[n] : n \in DOMAIN r.lg[g].f} : g \in DOMAIN r.lg}
Loaded(r, file, a) ==
  IF \E n \in DOMAIN r.ef : r.ef[n] = a THEN file.ef[CHOOSE n \in DOMAIN r.ef : r.ef[n] = a].c
  ELSE IF \E g \in DOMAIN r.lg : r.lg[g].arr = a THEN file.lg[CHOOSE g \in DOMAIN r.lg : r.lg[g].arr = a].c
  ELSE LET g == CHOOSE g \in DOMAIN r.lg : \E n \in DOMAIN r.lg[g].f : r.lg[g].f[n] = a
           n == CHOOSE n \in DOMAIN r.lg[g].f : r.lg[g].f[n] = a IN file.lg[g].f[n].c
\* connections found in a file are taken over
AfterLoad(r, file) == [r EXCEPT !.lg = [g \in DOMAIN @ |-> IF g \notin DOMAIN file.lg \/ file.lg[g].conn = "no" \/ r.lg[g].conn = "yes" THEN @[g] ELSE [@[g] EXCEPT !.conn = "maybe"]]]
\* faults: parts of a file are lost
Less(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Damaged(F, p, what, g, n) ==
  CASE what = "whole" -> Less(F, p)
    [] what = "field" -> [F EXCEPT ![p].ef = Less(@, n)]
    [] what = "eulerian" -> [F EXCEPT ![p].def = FALSE, ![p].ef = None]
    [] what = "params" -> [F EXCEPT ![p].def = FALSE]
    [] what = "grid" -> [F EXCEPT ![p].lg = Less(@, g)]
    [] what = "lfield" -> [F EXCEPT ![p].lg[g].f = Less(@, n)]
\* ------------------------------------------------------------ file layout
\* datasets that a file must hold: path -> [shape, c (content token), what]
Digit(i) == <<"0", "1", "2">>[i]
DS(path, shape, tok, kind, grid, field) == [path |-> path, shape |-> shape, tok |-> tok, kind |-> kind, grid |-> grid, field |-> field]
EulSets(r, file) == UNION {
   LET x == file.ef[n] IN
   IF x.kind = "Scalar" THEN {DS("Eulerian/Scalar/" \o n, <<1>> \o r.par.size, x.c.h, "Scalar", "", n)}
   ELSE {DS("Eulerian/Vector/" \o n \o "_" \o Digit(i), <<1>> \o r.par.size, x.c.c[i], "Scalar", "", n \o "_" \o Digit(i)) : i \in 1..r.dim}
   : n \in DOMAIN file.ef}
LagSets(file) == UNION {LET x == file.lg[g] IN
   {DS("Lagrangian/" \o g \o "/Grid", Rev(x.shape), x.c.h, "Grid", g, "Grid")}
   \cup {DS("Lagrangian/" \o g \o "/" \o x.f[n].kind \o "/" \o n, IF x.f[n].kind = "Scalar" THEN <<x.shape[2]>> ELSE Rev(x.shape), x.f[n].c.h, x.f[n].kind, g, n)
         : n \in DOMAIN x.f}
   : g \in DOMAIN file.lg}
ConnPath(g) == "Lagrangian/" \o g \o "/Connection"
ConnMust(file) == {ConnPath(g) : g \in {x \in DOMAIN file.lg : file.lg[x].conn = "yes"}}
ConnMay(file) == {ConnPath(g) : g \in {x \in DOMAIN file.lg : file.lg[x].conn # "no"}}
=============================================================================
