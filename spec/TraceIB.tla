------------------------------- MODULE TraceIB -------------------------------
(***************************************************************************)
(* Replays histories of communicator calls (support, weights, interpolate, *)
(* spread) against IB.  State: the fields (integers; the weights and base  *)
(* indices that interpolation and spreading use are fields too).           *)
(* Weights of nodes at 24ths of cells are compared with the tables; nodes  *)
(* anywhere else must give a tensor product of kernels that sum to one,    *)
(* with zero first moment (Peskin), even and odd points balanced (both).   *)
(***************************************************************************)
EXTENDS IB, Json
Hist == JsonDeserialize("trace.json")
Grids == TLCEval([t \in 1..Len(Hist) |-> MkGrid(Hist[t].sh)])
VARIABLES t, l, mem
Init == t \in 1..Len(Hist) /\ l = 1 /\ mem = Hist[t].mem
Bad == 2147483001
Say(e, clause, f) == PrintT(<<"MISMATCH", "hist", Hist[t].id, "event", l, "op", e.op, "clause", clause, "field", f>>)
Clean(x) == \A i \in 1..Len(x) : x[i] # Bad
\* --- support: nodes with cell c and 24ths k
SupportOK(G, e) == \A n \in 1..Len(e.nodes) : LET nd == e.nodes[n] IN
   /\ \A c \in 1..G.d : e.idx[n][c] = nd.c[c]
   /\ \A o \in 1..NSup(G.d), c \in 1..G.d : Within32(e.dist[n][c][o], 4194304 * Dist24(nd.k, o, c), e.dtol)
\* --- support of a node anywhere: (position - shift) / dx = cell + frac 2^-28, dist in cells, units 2^-28
SupportAnyOK(G, e) == \A n \in 1..Len(e.cell) : \A c \in 1..G.d :
   LET i == e.idx[n][c] - e.cell[n][c] f == e.frac[n][c] IN
   /\ i \in -1..1
   /\ i * Q28 <= f + e.dtol /\ f < (i + 1) * Q28 + e.dtol
   /\ \A o \in 1..NSup(G.d) : Within32(e.dist[n][c][o], (i + Off(o, c)) * Q28 - f, e.dtol)
WeightsOK(G, e) == \A n \in 1..Len(e.nodes) : \A o \in 1..NSup(G.d) :
   Within32(e.w[n][o], Fine(e.type, G.d, e.nodes[n].k, o), e.wtol)
\* --- weights of a node anywhere
Marg(G, w, c, j) == LET RECURSIVE S(_)
                        S(o) == IF o > NSup(G.d) THEN 0 ELSE (IF Off(o, c) = j THEN w[o] ELSE 0) + S(o + 1)
                    IN S(1)
AnyOK(G, e) == \A n \in 1..Len(e.w) :
  LET w == e.w[n]
      m == TLCEval([c \in 1..G.d |-> [j \in 1..4 |-> Marg(G, w, c, j - 2)]])
      prod(o) == IF G.d = 2 THEN Mul28(m[1][Off(o, 1) + 2], m[2][Off(o, 2) + 2])
                 ELSE Mul28(m[1][Off(o, 1) + 2], Mul28(m[2][Off(o, 2) + 2], m[3][Off(o, 3) + 2]))
      near(x, y, s) == Within32(x, y, s * e.wtol)
  IN /\ \A o \in 1..NSup(G.d) : w[o] >= -e.wtol /\ w[o] <= 2 * Q28
     /\ \A o \in 1..NSup(G.d) : near(w[o], prod(o), 8)
     /\ \A c \in 1..G.d :
        /\ near(m[c][1] + m[c][2] + m[c][3] + m[c][4], Q28, 64)
        /\ near(m[c][1] + m[c][3], m[c][2] + m[c][4], 64)
        \* first moment: sum phi(r_j) r_j = 0, fr = r of the base point (2^-28, in -1..0)
        /\ e.type = "peskin" =>
             near(-m[c][1] + m[c][3] + 2 * m[c][4], -e.dist[n][c][IF c = 1 THEN 2 ELSE IF c = 2 THEN 5 ELSE 17], 256)
        \* cosine: nearer points weigh more
        /\ LET f == -e.dist[n][c][IF c = 1 THEN 2 ELSE IF c = 2 THEN 5 ELSE 17] IN
           /\ f <= Q28 \div 2 => m[c][2] + 64 * e.wtol >= m[c][3]
           /\ f >= Q28 \div 2 => m[c][3] + 64 * e.wtol >= m[c][2]
\* --- interpolation and spreading: integer weights, exact
Node(e, f, n) == f[n]
Comps(G, e) == IF e.vec THEN G.d ELSE 1
CompOf(x, c, n) == SubSeq(x, (c - 1) * n + 1, c * n)
Bases(G, e) == LET x == mem[e.idx] n == e.n IN [i \in 1..n |-> [c \in 1..G.d |-> x[(c - 1) * n + i]]]
Ws(G, e) == LET x == mem[e.w] n == e.n IN [i \in 1..n |-> [o \in 1..NSup(G.d) |-> x[(o - 1) * n + i]]]
InterpAll(G, e, bs, ws) == TLCEval([q \in 1..(Comps(G, e) * e.n) |->
    LET c == ((q - 1) \div e.n) + 1 i == ((q - 1) % e.n) + 1
    IN Gather(G, CompOf(mem[e.eul], c, G.n), bs[i], ws[i], Times)])
RECURSIVE SpreadFrom(_, _, _, _, _)
SpreadFrom(G, e, bs, ws, c) == IF c > Comps(G, e) THEN <<>>
    ELSE Scatter(G, CompOf(mem[e.eul], c, G.n), bs, ws, CompOf(mem[e.lag], c, e.n), Times) \o SpreadFrom(G, e, bs, ws, c + 1)
Expect(G, e) == LET bs == TLCEval(Bases(G, e)) ws == TLCEval(Ws(G, e)) IN
    IF e.op = "interp" THEN InterpAll(G, e, bs, ws) ELSE SpreadFrom(G, e, bs, ws, 1)
Result(G, e) ==
  CASE e.op = "support" -> SupportOK(G, e)
    [] e.op = "weights" -> WeightsOK(G, e)
    [] e.op = "support_any" -> SupportAnyOK(G, e)
    [] e.op = "weights_any" -> AnyOK(G, e)
    [] e.op \in {"interp", "spread"} -> e.out = Expect(G, e)
Judge(G, e) ==
  /\ IF e.err = "" THEN TRUE ELSE Say(e, "raised " \o e.err, "-")
  /\ \A k \in 1..Len(e.changed) : IF \E j \in 1..Len(e.allowed) : e.allowed[j] = e.changed[k] THEN TRUE
                                  ELSE Say(e, "must not change", e.changed[k])
  /\ IF e.err # "" THEN TRUE
     ELSE IF e.bad THEN Say(e, "result out of range or not a number", "-")
     ELSE IF Result(G, e) THEN TRUE ELSE Say(e, "wrong result", "-")
Next == /\ l <= Len(Hist[t].ev)
        /\ LET e == Hist[t].ev[l] IN
           IF e.op = "poke" THEN mem' = [b \in DOMAIN mem |-> IF b \in DOMAIN e.fill THEN e.fill[b] ELSE mem[b]]
           ELSE /\ Judge(Grids[t], e)
                /\ mem' = IF e.op \in {"interp", "spread"} /\ e.err = "" /\ ~e.bad THEN [mem EXCEPT ![e.o] = e.out] ELSE mem
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, l, mem>>
View == <<t, l>>
=============================================================================
