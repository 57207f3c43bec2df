------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The state machine of stencil computations: the state is a memory of     *)
(* named fields, and each public kernel is one action that maps the fields *)
(* it is given (ev.a: role -> name) and its parameters (ev.p) to new       *)
(* contents of the fields it declares as outputs.  Everything else in      *)
(* memory keeps its value.                                                 *)
(*                                                                         *)
(* Effect(G, ev, mem) = [w |-> name :> contents,  (declared outputs)        *)
(*                       scr |-> names whose contents are unspecified,     *)
(*                       alt |-> a second, known deviating, outcome,       *)
(*                tol |-> allowed error per point of w, <<>> = exact]       *)
(***************************************************************************)
EXTENDS Kernels, Tables

None == [x \in {} |-> 0]
Out1(b, s) == [w |-> b :> s, scr |-> {}, alt |-> None, tol |-> <<>>]
Out1S(b, s, scr) == [w |-> b :> s, scr |-> scr, alt |-> None, tol |-> <<>>]

\* f * s / 2^30 for |f| <= 2^29 and 0 <= s <= 2^30, rounded by at most 2,
\* without leaving 32 bits
MulQ(f, s) ==
  LET g == Abs(f) fh == g \div 16384 fl == g % 16384
      sh == s \div 32768 sl == s % 32768
      r == (fh * sh + (fh * sl) \div 32768 + (fl * sh) \div 16384) \div 2
  IN IF f < 0 THEN -r ELSE r

(* boundary penalisation: nearest inner edge value times the ramps *)
RampAt(w, dist) == IF dist >= w THEN 1073741824 ELSE SinRamp[w][dist + 1]
Clamp(G, w, i, a) == LET c == Coord(G.sh, i, a) IN
   IF c < w THEN w - 1 ELSE IF c > G.sh[a] - w THEN G.sh[a] - w ELSE c
RECURSIVE ClampIdx(_, _, _, _)
ClampIdx(G, w, i, a) == IF a > G.d THEN 1
   ELSE Clamp(G, w, i, a) * G.st[a] + ClampIdx(G, w, i, a + 1)
RECURSIVE RampProd(_, _, _, _, _)
RampProd(G, w, i, a, v) == IF a = 0 THEN v
   ELSE LET e == EndDist(G.sh, i, a) IN
        RampProd(G, w, i, a - 1, IF e >= w THEN v ELSE MulQ(v, RampAt(w, e)))
PenBound(G, f, w) == IF w = 0 THEN f
   ELSE Mk(G, LAMBDA i : RampProd(G, w, i, G.d, f[ClampIdx(G, w, i, 1)]))

\* the ramps of this point are exactly 0, 1/2 or 1
ExactRamps(G, w, i) == \A a \in 1..G.d : LET e == EndDist(G.sh, i, a) IN e = 0 \/ e >= w \/ 3 * e = w
PenTol(G, w, prec, big) ==
  Mk(G, LAMBDA i : IF Inside(G.sh, w, i) THEN 0
                   ELSE IF ExactRamps(G, w, i) THEN 1 + big \div prec
                   ELSE 8 + big \div prec)

(* characteristic function of phi = k/24 blend widths, in units of 2^-29 *)
Q29 == 536870912
Heaviside(k) ==
  IF k > 24 THEN Q29 ELSE IF k < -24 THEN 0
  ELSE (Q29 + (Q29 \div 24) * k + ((Q29 % 24) * k) \div 24
        + (IF k < 0 THEN -SinOverPi[1 - k] ELSE SinOverPi[k + 1])) \div 2
\* exact outside of the blending zone
HeavisideTol(k, tol) == IF Abs(k) > 24 THEN 0 ELSE tol

\* at high orders the specification rounds each division by 4 down: each of the
\* 3 order applications adds less than one to the error
FilterTol(G, p, nc) == IF p.order < 3 THEN <<>>
   ELSE TLCEval([i \in 1..(nc * G.n) |-> IF G.in1[((i - 1) % G.n) + 1] THEN p.tol ELSE 0])

VecByComp(G, v, Op(_, _)) == ByComp(G, LAMBDA c : Op(Comp(G, v, c), c))

Effect(G, ev, mem) ==
  LET a == ev.a  p == ev.p  o == ev.op IN
  CASE o = "poke"  -> [w |-> ev.post, scr |-> {}, alt |-> None, tol |-> <<>>]
    \* ------------------------------------------------ diffusion
    [] o = "diff_flux" ->
         Out1(a.out, DiffFlux(G, mem[a.out], mem[a.f], p.k, p.reset))
    [] o = "diff_flux_v" ->
         Out1(a.out, ByComp(G, LAMBDA c : DiffFlux(G, Comp(G, mem[a.out], c),
                                        Comp(G, mem[a.f], c), p.k, p.reset)))
    [] o = "diff_step" -> Out1S(a.f, DiffStep(G, mem[a.f], p.k), {a.scr})
    [] o = "diff_step_v" ->
         Out1S(a.f, VecByComp(G, mem[a.f], LAMBDA f, c : DiffStep(G, f, p.k)), {a.scr})
    \* ------------------------------------------------ advection
    [] o = "adv_flux" ->
         Out1(a.out, AdvFlux(G, mem[a.out], mem[a.f], mem[a.v], p.k))
    [] o = "adv_step" ->
         Out1S(a.f, AdvStep(G, mem[a.f], mem[a.v], p.k), {a.scr})
    [] o = "adv_step_v" ->
         Out1S(a.f, VecByComp(G, mem[a.f], LAMBDA f, c : AdvStep(G, f, mem[a.v], p.k)), {a.scr})
    \* ------------------------------------------------ curl, divergence
    [] o = "curl_in"  -> Out1(a.out, CurlIn(G, mem[a.out], mem[a.f], p.k))
    [] o = "curl_out" -> Out1(a.out, CurlOut(G, mem[a.out], mem[a.f], p.k, p.reset))
    [] o = "curl3"    -> Out1(a.out, Curl3(G, mem[a.out], mem[a.f], p.k, p.reset))
    [] o = "div3"     -> Out1(a.out, Div(G, mem[a.out], mem[a.f], p.k, p.reset))
    \* ------------------------------------------------ vorticity update
    [] o = "vort_force" ->
         Out1(a.w, IF G.d = 2 THEN VortForce2(G, mem[a.w], mem[a.f], p.k)
                   ELSE VortForce3(G, mem[a.w], mem[a.f], p.k))
    [] o = "vort_pen" ->
         LET f == MinusSeq(mem[a.pv], mem[a.v]) IN
         Out1(a.w, IF G.d = 2 THEN VortForce2(G, mem[a.w], f, p.k)
                   ELSE VortForce3(G, mem[a.w], f, p.k))
    \* ------------------------------------------------ stretching
    [] o = "stretch_flux" -> Out1(a.out, Stretch(G, mem[a.w], mem[a.v], p.k))
    [] o = "stretch_euler" ->
         Out1S(a.w, StretchStep(G, mem[a.w], mem[a.v], p.k), {a.scr})
    [] o = "stretch_rk3" ->
         [ w |-> a.w :> SSPRK3(G, mem[a.w], mem[a.v], p.k, FALSE),
           scr |-> {a.scr, a.mid}, tol |-> <<>>,
           alt |-> a.w :> SSPRK3(G, mem[a.w], mem[a.v], p.k, TRUE) ]
    \* ------------------------------------------------ Brinkmann
    [] o = "brink" ->
         Out1(a.out, Brink(G, mem[a.f], mem[a.chi], mem[a.t], p.k))
    [] o = "brink_v" ->
         Out1(a.out, ByComp(G, LAMBDA c : Brink(G, Comp(G, mem[a.f], c), mem[a.chi],
                                                Comp(G, mem[a.t], c), p.k)))
    [] o = "brinkfix" ->
         Out1(a.out, Brink(G, mem[a.f], mem[a.chi], Const(G, p.val[1]), p.k))
    [] o = "brinkfix_v" ->
         Out1(a.out, ByComp(G, LAMBDA c : Brink(G, Comp(G, mem[a.f], c), mem[a.chi],
                                                Const(G, p.val[c]), p.k)))
    \* ------------------------------------------------ pointwise
    [] o \in {"sum", "sum_v"} -> Out1(a.out, SumK(mem[a.f], mem[a.g]))
    [] o \in {"saxpby", "saxpby_v"} -> Out1(a.out, LinSeq(p.k, mem[a.f], p.l, mem[a.g]))
    [] o = "set"   -> Out1(a.out, Const(G, p.val[1]))
    [] o = "set_v" -> Out1(a.out, ByComp(G, LAMBDA c : Const(G, p.val[c])))
    [] o = "copy"  -> Out1(a.out, mem[a.f])
    [] o = "cprod" -> Out1(a.out, CProd(G, mem[a.f], mem[a.g]))
    [] o = "cross" -> Out1(a.out, Cross(G, mem[a.f], mem[a.g]))
    [] o = "add"   -> Out1(a.out, AddK(mem[a.f], p.val[1]))
    [] o = "add_v" ->
         Out1(a.out, ByComp(G, LAMBDA c : AddK(Comp(G, mem[a.f], c), p.val[c])))
    [] o = "ring"  -> Out1(a.out, SetRing(G, mem[a.out], p.width, p.val[1]))
    [] o = "ring_v" ->
         Out1(a.out, VecByComp(G, mem[a.out], LAMBDA f, c : SetRing(G, f, p.width, p.val[c])))
    \* ------------------------------------------------ filter
    [] o = "filter" ->
         [w |-> a.f :> Filter(G, mem[a.f], p.order, p.type),
          scr |-> {a.scr, a.mid}, alt |-> None, tol |-> FilterTol(G, p, 1)]
    [] o = "filter_v" ->
         [w |-> a.f :> VecByComp(G, mem[a.f], LAMBDA f, c : Filter(G, f, p.order, p.type)),
          scr |-> {a.scr, a.mid}, alt |-> None, tol |-> FilterTol(G, p, G.d)]
    \* ------------------------------------------------ fixed point kernels
    [] o = "charfunc" ->
         [w |-> a.out :> Mk(G, LAMBDA i : Heaviside(mem[a.f][i])), scr |-> {}, alt |-> None,
          tol |-> Mk(G, LAMBDA i : HeavisideTol(mem[a.f][i], p.tol))]
    [] o = "pen_bound" ->
         [w |-> a.f :> PenBound(G, mem[a.f], p.width), scr |-> {}, alt |-> None,
          tol |-> PenTol(G, p.width, p.prec, p.big)]
    [] o = "pen_bound_v" ->
         [w |-> a.f :> VecByComp(G, mem[a.f], LAMBDA f, c : PenBound(G, f, p.width)),
          scr |-> {}, alt |-> None,
          tol |-> ByComp(G, LAMBDA c : PenTol(G, p.width, p.prec, p.big))]

----------------------------------------------------------------------------
\* contents of b after an effect
After(eff, mem, b) == IF b \in DOMAIN eff.w THEN eff.w[b] ELSE mem[b]
AfterAlt(eff, mem, b) == IF b \in DOMAIN eff.alt THEN eff.alt[b] ELSE mem[b]
SameSeq(x, y, tol) ==
  /\ Len(x) = Len(y)
  /\ IF tol = <<>> THEN x = y ELSE \A i \in 1..Len(x) : Within32(x[i], y[i], tol[i])
=============================================================================
