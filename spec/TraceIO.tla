------------------------------- MODULE TraceIO -------------------------------
(***************************************************************************)
(* Replays histories of registrations, array changes, saves and loads       *)
(* against IOSpec.  State: registries R, contents A, files F.  Every        *)
(* mismatch is tagged with the property it concerns.                        *)
(***************************************************************************)
EXTENDS IOSpec, Json
Hist == JsonDeserialize("trace.json")
\* X: objects a registration of which was refused half way: what they hold is open,
\* and the replay ends at their next use
VARIABLES t, l, R, A, F, X
vars == <<t, l, R, A, F, X>>
H == Hist[t]
Sh(a) == H.shapes[a]
Init == t \in 1..Len(Hist) /\ l = 1 /\ R = None /\ A = Hist[t].arrays /\ F = None /\ X = {}
Say(e, prop, clause, f) == PrintT(<<"MISMATCH", "hist", H.id, "event", l, "op", e.op, "property", prop, "clause", clause, "at", f>>)
Must(e, cond, prop, clause, f) == IF cond THEN TRUE ELSE Say(e, prop, clause, f)
Names(e) == DOMAIN e.changed
Range(s) == {s[i] : i \in 1..Len(s)}
Taken == [a \in DOMAIN A |-> IF a \in DOMAIN H.ev[l].changed THEN H.ev[l].changed[a] ELSE A[a]]
Untouched(e, prop) == Must(e, DOMAIN e.changed = {}, prop, "changes no array", ToString(Names(e)))
\* ----------------------------------------------------------- registration
Fields(e) == [i \in 1..Len(e.fields) |-> <<e.fields[i].name, e.fields[i].arr>>]
RegOK(e) == CASE e.op = "define" -> TRUE
              [] e.op = "adde" -> AddEulOK(R[e.io], Fields(e), Sh)
              [] e.op = "addl" -> AddLagOK(R[e.io], e.grid, Fields(e), Sh)
RegNew(e) == CASE e.op = "define" -> Define(R[e.io], e.par)
              [] e.op = "adde" -> AddEul(R[e.io], Fields(e))
              [] e.op = "addl" -> AddLag(R[e.io], e.name, e.grid, e.conn, Fields(e))
Register(e) ==
  /\ Untouched(e, "C23")
  /\ IF RegOK(e) THEN Must(e, e.err = "", "C23", "valid registration raised " \o e.err, e.io)
     ELSE Must(e, e.err # "", "C24", "invalid registration is refused", e.io)
  /\ R' = IF RegOK(e) THEN [R EXCEPT ![e.io] = RegNew(e)] ELSE R
  /\ A' = Taken /\ F' = F
\* ------------------------------------------------------------------- files
Dump(e) == e.h5.sets
PathsOf(e) == {Dump(e)[i].path : i \in 1..Len(Dump(e))}
DumpAt(e, p) == Dump(e)[CHOOSE i \in 1..Len(Dump(e)) : Dump(e)[i].path = p]
Want(r, file) == EulSets(r, file) \cup LagSets(file)
LayoutOK(e, r, file) ==
  LET want == Want(r, file) wp == {x.path : x \in want} IN
  /\ Must(e, e.h5.ok, "C25", "the HDF5 file opens", e.file)
  /\ IF ~e.h5.ok THEN TRUE ELSE
     /\ Must(e, wp \cup ConnMust(file) \subseteq PathsOf(e), "C25", "dataset missing", ToString((wp \cup ConnMust(file)) \ PathsOf(e)))
     /\ Must(e, PathsOf(e) \subseteq wp \cup ConnMay(file), "C25", "dataset in excess", ToString(PathsOf(e) \ (wp \cup ConnMay(file))))
     /\ \A x \in want : IF x.path \notin PathsOf(e) THEN TRUE ELSE LET y == DumpAt(e, x.path) IN
          /\ Must(e, y.shape = x.shape, "C25", "dataset shape", x.path)
          /\ Must(e, (IF Len(x.shape) = 2 /\ x.grid # "" THEN y.tokT ELSE y.tok) = x.tok, "C25", "dataset content", x.path)
          /\ Must(e, y.kind = "Float" /\ y.size = H.real, "C25", "dataset element type", x.path)
     /\ \A p \in PathsOf(e) \cap ConnMay(file) : LET y == DumpAt(e, p) IN
          Must(e, y.kind = "Int" /\ Len(y.shape) = 1 /\ y.line /\ \E g \in DOMAIN file.lg : ConnPath(g) = p /\ y.shape[1] = file.lg[g].shape[2], "C25", "connection joins the nodes in order", p)
     /\ Must(e, e.h5.time = e.time, "C25", "time stamp", e.h5.time)
     /\ IF ~r.def THEN TRUE ELSE
          Must(e, e.h5.par = r.par, "C25", "grid parameters", ToString(e.h5.par))
\* --- XDMF.  item: [fmt, num, prec, dims, file, path]
Strip1(s) == LET RECURSIVE Q(_)
                 Q(i) == IF i > Len(s) THEN <<>> ELSE IF s[i] = 1 THEN Q(i + 1) ELSE SubSeq(s, i, Len(s))
             IN Q(1)
ItemOK(e, it, f) ==
  /\ Must(e, it.fmt = "HDF" /\ it.file, "C25", "data reference to the saved file", f \o " " \o it.path)
  /\ IF it.path \notin PathsOf(e) THEN Say(e, "C25", "data reference to no dataset", f \o " " \o it.path) ELSE
     LET y == DumpAt(e, it.path) IN
     /\ Must(e, Strip1(it.dims) = Strip1(y.shape), "C25", "dimensions of the reference", f \o " " \o it.path)
     /\ Must(e, it.prec = y.size, "C25", "element size of the reference", f \o " " \o it.path)
     /\ Must(e, it.num = y.kind, "C25", "number type of the reference", f \o " " \o it.path)
Attrs(x) == {[path |-> x.attrs[i].item.path, name |-> x.attrs[i].name, type |-> x.attrs[i].type] : i \in 1..Len(x.attrs)}
NearSeq(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Within32(x[i], y[i], 2)
Three(r, s, lead) == IF r.dim = 3 THEN s ELSE <<lead>> \o s
XCommon(e, x) ==
  /\ Must(e, x.time = e.time, "C25", "XDMF time", x.path)
  /\ Must(e, x.dir = e.dir, "C25", "XDMF file next to the HDF5 file", x.path)
  /\ \A i \in 1..Len(x.attrs) : ItemOK(e, x.attrs[i].item, x.path) /\ Must(e, x.attrs[i].center = "Node", "C25", "attribute at the nodes", x.path)
XEul(e, r, file, x) ==
  /\ XCommon(e, x)
  /\ Must(e, x.top.type = "3DCORECTMesh" /\ x.top.dims = Three(r, r.par.size, 1), "C25", "Eulerian topology", x.path)
  /\ Must(e, x.geo.type = "ORIGIN_DXDYDZ" /\ Len(x.geo.origin) = 3 /\ Len(x.geo.spacing) = 3 /\ x.geo.lens = <<3, 3>>, "C25", "Eulerian geometry", x.path)
  /\ IF Len(x.geo.origin) # 3 \/ Len(x.geo.spacing) # 3 THEN TRUE ELSE
     LET tail(s) == IF r.dim = 3 THEN s ELSE SubSeq(s, 2, 3) IN
     /\ Must(e, NearSeq(tail(x.geo.origin), e.h5.originQ), "C25", "Eulerian origin", x.path)
     /\ Must(e, NearSeq(tail(x.geo.spacing), e.h5.dxQ), "C25", "Eulerian spacing", x.path)
  /\ Must(e, Attrs(x) = {[path |-> y.path, name |-> y.field, type |-> "Scalar"] : y \in EulSets(r, file)}, "C25", "Eulerian field list", x.path)
XLag(e, r, file, g, x) == LET fg == file.lg[g] conn == ConnPath(g) IN
  /\ XCommon(e, x)
  /\ Must(e, x.geo.type = (IF r.dim = 3 THEN "XYZ" ELSE "XY"), "C25", "Lagrangian geometry", x.path)
  /\ ItemOK(e, x.geo.item, x.path)
  /\ IF conn \in PathsOf(e) THEN /\ Must(e, x.top.type = "Polyline" /\ x.top.item.path = conn, "C25", "connected grid is a polyline", x.path)
                                 /\ IF x.top.type = "Polyline" THEN ItemOK(e, x.top.item, x.path) ELSE TRUE
     ELSE Must(e, x.top.type = "Polyvertex" /\ x.top.count = fg.shape[2], "C25", "unconnected grid is a set of vertices", x.path)
  /\ Must(e, Attrs(x) = {[path |-> y.path, name |-> y.field, type |-> y.kind] : y \in {z \in LagSets(file) : z.grid = g /\ z.kind # "Grid"}},
          "C25", "Lagrangian field list", x.path)
XdmfOK(e, r, file) == LET xs == e.xmf ix == 1..Len(xs)
    eul == {i \in ix : xs[i].geo.grid = "*"}
    lag(g) == {i \in ix : xs[i].geo.grid = g} IN
  /\ \A i \in ix : Must(e, xs[i].ok, "C25", "XDMF file is well formed", xs[i].path)
  /\ Must(e, Cardinality(eul) = 1 \/ (DOMAIN r.ef = {} /\ (eul = {} \/ r.def)), "C25", "one XDMF file for the Eulerian grid", ToString(Cardinality(eul)))
  /\ \A g \in DOMAIN r.lg : Must(e, Cardinality(lag(g)) = 1, "C25", "one XDMF file per Lagrangian grid", g)
  /\ Must(e, \A i \in ix : xs[i].geo.grid = "*" \/ xs[i].geo.grid \in DOMAIN r.lg, "C25", "no other XDMF file", ToString({xs[i].path : i \in ix}))
  /\ \A i \in eul : IF r.def THEN XEul(e, r, file, xs[i]) ELSE TRUE
  /\ \A g \in DOMAIN r.lg : \A i \in lag(g) : XLag(e, r, file, g, xs[i])
Save(e) == LET r == R[e.io] file == TLCEval(FileOf(r, e.time, Sh, LAMBDA a : A[a])) IN
  /\ Untouched(e, "C23")
  /\ IF e.err # "" THEN Say(e, "C23", "save raised " \o e.err, e.file) /\ Say(e, "C25", "save raised " \o e.err, e.file)
     ELSE /\ LayoutOK(e, r, file)
          /\ IF e.h5.ok THEN XdmfOK(e, r, file) ELSE TRUE
          /\ Must(e, e.others = <<>>, "C25", "other files are left alone", ToString(e.others))
  /\ F' = IF e.err = "" THEN Put(F, e.file, file) ELSE [x \in DOMAIN F \ {e.file} |-> F[x]]
  /\ A' = Taken /\ R' = R
\* -------------------------------------------------------------------- load
Load(e) == LET r == R[e.io] here == e.file \in DOMAIN F file == F[e.file] fine == here /\ LoadOK(r, file, Sh)
    want(a) == IF a \in Regs(r) THEN Loaded(r, file, a) ELSE A[a] IN
  /\ IF fine THEN
       /\ Must(e, e.err = "", "C23", "load raised " \o e.err, e.file)
       /\ IF e.err # "" THEN TRUE ELSE
          /\ Must(e, e.time = file.time, "C23", "time of the save", e.time)
          /\ \A a \in DOMAIN A : Must(e, Taken[a] = want(a), "C23", IF a \in Regs(r) THEN "array restored" ELSE "array outside the registry changed", a)
     ELSE /\ Must(e, e.err # "", "C24", "load that does not match is refused", e.file)
          /\ Must(e, Names(e) \subseteq Regs(r), "C24", "arrays outside the registry changed", ToString(Names(e) \ Regs(r)))
  /\ Must(e, e.others = <<>>, "C23", "loading changes no file", ToString(e.others))
  /\ A' = Taken /\ F' = F
  \* a refused load may have taken over connections before it noticed
  /\ R' = IF here THEN [R EXCEPT ![e.io] = AfterLoad(r, file)] ELSE R
HalfWay(e) == CASE e.op = "adde" -> R[e.io].def /\ ~RegOK(e)
                [] e.op = "addl" -> GridOK(H.dim, Sh(e.grid)) /\ ~RegOK(e)
                [] OTHER -> FALSE
Open(e) == e.op \in {"define", "adde", "addl", "save", "load"} /\ e.io \in X
Next == IF l <= Len(H.ev) /\ ("*" \in X \/ Open(H.ev[l])) THEN l' = l + 1 /\ X' = {"*"} /\ UNCHANGED <<t, R, A, F>> ELSE
        /\ l <= Len(H.ev) /\ l' = l + 1 /\ t' = t
        /\ X' = IF H.ev[l].op = "new" THEN X \ {H.ev[l].io} ELSE IF HalfWay(H.ev[l]) THEN X \cup {H.ev[l].io} ELSE X
        /\ LET e == H.ev[l] IN
           CASE e.op = "new" -> Must(e, e.err = "", "C23", "raised " \o e.err, e.io) /\ R' = Put(R, e.io, NewReg(H.dim)) /\ UNCHANGED <<A, F>>
             [] e.op \in {"define", "adde", "addl"} -> Register(e)
             [] e.op = "mutate" -> A' = Taken /\ UNCHANGED <<R, F>>
             [] e.op = "save" -> Save(e)
             [] e.op = "load" -> Load(e)
             [] e.op = "copy" -> F' = (IF e.file \in DOMAIN F THEN Put(F, e.to, F[e.file]) ELSE F) /\ UNCHANGED <<R, A>>
             [] e.op = "damage" -> F' = (IF e.file \in DOMAIN F THEN Damaged(F, e.file, e.what, e.grid, e.name) ELSE F) /\ UNCHANGED <<R, A>>
Spec == Init /\ [][Next]_vars
View == <<t, l>>
=============================================================================
