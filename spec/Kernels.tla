------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* What every stencil kernel of sopht-backend means, as operators on flat  *)
(* fields (see Grid).  Integer arithmetic: callers choose inputs for which *)
(* the divisions below are exact, and the harness maps reals to integers   *)
(* by exact powers of two.                                                 *)
(***************************************************************************)
EXTENDS Grid

\* d f / d(direction of c), centred, without the factor 1 / (2 dx)
D0(G, f, c, i) == f[i + SC(G, c)] - f[i - SC(G, c)]
\* where the kernel does not write: zero if the ghost zone is reset
Ghost(out, reset, i) == IF reset THEN 0 ELSE out[i]

----------------------------------------------------------------------------
(* diffusion *)
Lap(G, f, i) ==
  IF G.d = 2
  THEN f[i + G.st[1]] + f[i - G.st[1]] + f[i + 1] + f[i - 1] - 4 * f[i]
  ELSE f[i + G.st[1]] + f[i - G.st[1]] + f[i + G.st[2]] + f[i - G.st[2]]
       + f[i + 1] + f[i - 1] - 6 * f[i]
DiffFlux(G, out, f, p, reset) ==
  Mk(G, LAMBDA i : IF G.in1[i] THEN p * Lap(G, f, i) ELSE Ghost(out, reset, i))
DiffStep(G, f, p) ==
  Mk(G, LAMBDA i : IF G.in1[i] THEN f[i] + p * Lap(G, f, i) ELSE f[i])

----------------------------------------------------------------------------
(* advection: six times the flux through the face between i and i + s       *)
Face6(f, v, s, i) ==
  IF v[i] + v[i + s] > 0
  THEN 2 * (f[i + s] * v[i + s]) + 5 * (f[i] * v[i]) - f[i - s] * v[i - s]
  ELSE 2 * (f[i] * v[i]) + 5 * (f[i + s] * v[i + s]) - f[i + 2 * s] * v[i + 2 * s]
\* six times the divergence of the flux along component c's axis
Adv6(G, f, v, c, i) ==
  LET s == SC(G, c) o == (c - 1) * G.n
      w == [j \in {i - 2*s, i - s, i, i + s, i + 2*s} |-> v[o + j]]
  IN Face6(f, w, s, i) - Face6(f, w, s, i - s)
AdvSum6(G, f, v, i) ==
  IF G.d = 2 THEN Adv6(G, f, v, 1, i) + Adv6(G, f, v, 2, i)
  ELSE Adv6(G, f, v, 1, i) + Adv6(G, f, v, 2, i) + Adv6(G, f, v, 3, i)
AdvFlux(G, out, f, v, p) ==
  Mk(G, LAMBDA i : IF G.in2[i] THEN out[i] + p * (AdvSum6(G, f, v, i) \div 6)
                   ELSE out[i])
AdvStep(G, f, v, p) ==
  Mk(G, LAMBDA i : IF G.in2[i] THEN f[i] - p * (AdvSum6(G, f, v, i) \div 6)
                   ELSE f[i])

----------------------------------------------------------------------------
(* curl and divergence; component operators take the vector field v         *)
Next3(c) == IF c = 3 THEN 1 ELSE c + 1
Prev3(c) == IF c = 1 THEN 3 ELSE c - 1
\* component c of the curl of the 3D field v at i, without 1 / (2 dx)
Curl3At(G, v, c, i) ==
  LET b == Next3(c) e == Prev3(c) IN
    (v[(e-1) * G.n + i + SC(G, b)] - v[(e-1) * G.n + i - SC(G, b)])
  - (v[(b-1) * G.n + i + SC(G, e)] - v[(b-1) * G.n + i - SC(G, e)])
\* out-of-plane component of the curl of the 2D in-plane field v at i
Curl2At(G, v, i) ==
    (v[G.n + i + SC(G, 1)] - v[G.n + i - SC(G, 1)])
  - (v[i + SC(G, 2)] - v[i - SC(G, 2)])
Curl3(G, out, v, p, reset) ==
  ByComp(G, LAMBDA c : Mk(G, LAMBDA i :
     IF G.in1[i] THEN p * Curl3At(G, v, c, i)
     ELSE Ghost(Comp(G, out, c), reset, i)))
CurlIn(G, out, v, p) ==
  Mk(G, LAMBDA i : IF G.in1[i] THEN p * Curl2At(G, v, i) ELSE out[i])
CurlOut(G, out, f, p, reset) ==
  ByComp(G, LAMBDA c : Mk(G, LAMBDA i :
     IF G.in1[i] THEN IF c = 1 THEN p * D0(G, f, 2, i) ELSE -(p * D0(G, f, 1, i))
     ELSE Ghost(Comp(G, out, c), reset, i)))
\* p is twice the prefactor one half of the inverse spacing, so p is even
Div(G, out, v, p, reset) ==
  Mk(G, LAMBDA i :
     IF G.in1[i]
     THEN (p \div 2) * (D0(G, Comp(G, v, 1), 1, i) + D0(G, Comp(G, v, 2), 2, i)
                        + D0(G, Comp(G, v, 3), 3, i))
     ELSE Ghost(out, reset, i))

----------------------------------------------------------------------------
(* vorticity from forcing: w += p curl(f) *)
VortForce3(G, w, f, p) ==
  ByComp(G, LAMBDA c : LET wc == Comp(G, w, c) IN Mk(G, LAMBDA i :
     IF G.in1[i] THEN wc[i] + p * Curl3At(G, f, c, i) ELSE wc[i]))
VortForce2(G, w, f, p) ==
  Mk(G, LAMBDA i : IF G.in1[i] THEN w[i] + p * Curl2At(G, f, i) ELSE w[i])
MinusSeq(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])

----------------------------------------------------------------------------
(* vortex stretching *)
StretchAt(G, w, u, c, i) ==
  LET o == (c - 1) * G.n IN
    w[i]           * (u[o + i + SC(G, 1)] - u[o + i - SC(G, 1)])
  + w[G.n + i]     * (u[o + i + SC(G, 2)] - u[o + i - SC(G, 2)])
  + w[2 * G.n + i] * (u[o + i + SC(G, 3)] - u[o + i - SC(G, 3)])
Stretch(G, w, u, p) ==
  ByComp(G, LAMBDA c : Mk(G, LAMBDA i :
     IF G.in1[i] THEN p * StretchAt(G, w, u, c, i) ELSE 0))
PlusSeq(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
LinSeq(a, x, b, y) == TLCEval([i \in 1..Len(x) |-> a * x[i] + b * y[i]])
StretchStep(G, w, u, p) == PlusSeq(w, Stretch(G, w, u, p))
\* SSP-RK3 in integers: W is four times the second stage.  With w a multiple
\* of 12 every stage and the result are integers.  half selects the variant
\* whose third stage advances by half a step only.
SSPRK3(G, w, u, p, half) ==
  LET w1 == StretchStep(G, w, u, p)
      W  == LinSeq(3, w, 1, StretchStep(G, w1, u, p))
      F  == Stretch(G, W, u, p)
  IN TLCEval([i \in 1..Len(w) |->
        IF half THEN (4 * w[i] + 2 * W[i] + F[i]) \div 12
                ELSE (2 * w[i] + W[i] + F[i]) \div 6])

----------------------------------------------------------------------------
(* pointwise kernels *)
SumK(f1, f2) == PlusSeq(f1, f2)
SetK(n, v) == TLCEval([i \in 1..n |-> v])
AddK(f, v) == TLCEval([i \in 1..Len(f) |-> f[i] + v])
\* complex fields are stored as real parts followed by imaginary parts
CProd(G, a, b) == TLCEval([i \in 1..(2 * G.n) |->
   IF i <= G.n THEN a[i] * b[i] - a[i + G.n] * b[i + G.n]
   ELSE a[i - G.n] * b[i] + a[i] * b[i - G.n]])
Cross(G, a, b) == ByComp(G, LAMBDA c : LET n == (Next3(c) - 1) * G.n
                                           q == (Prev3(c) - 1) * G.n IN
   Mk(G, LAMBDA i : a[n + i] * b[q + i] - a[q + i] * b[n + i]))
SetRing(G, f, w, v) ==
  Mk(G, LAMBDA i : IF Inside(G.sh, w, i) THEN f[i] ELSE v)

----------------------------------------------------------------------------
(* Brinkmann penalisation as a relation: r (1 + p chi) = f + p chi t         *)
BrinkAt(r, f, chi, t, p) == r * (1 + p * chi) = f + p * chi * t
BrinkVal(f, chi, t, p) == (f + p * chi * t) \div (1 + p * chi)
Brink(G, f, chi, t, p) == Mk(G, LAMBDA i : BrinkVal(f[i], chi[i], t[i], p))

----------------------------------------------------------------------------
(* Laplacian filter; 4 ^ (number of applications) divides the field         *)
Hat(G, f, c) ==
  Mk(G, LAMBDA i : IF G.in1[i]
                   THEN (2 * f[i] - f[i + SC(G, c)] - f[i - SC(G, c)]) \div 4
                   ELSE 0)
RECURSIVE HatN(_, _, _, _)
HatN(G, f, c, k) == IF k = 0 THEN f ELSE HatN(G, Hat(G, f, c), c, k - 1)
RECURSIVE HatAll(_, _, _)
HatAll(G, f, k) == IF k = 0 THEN f
                   ELSE HatAll(G, Hat(G, Hat(G, Hat(G, f, 1), 2), 3), k - 1)
FilterMul(G, f, k) == IF k = 0 THEN f ELSE MinusSeq(f, HatAll(G, f, k))
FilterDir(G, f, c, k) == IF k = 0 THEN f ELSE MinusSeq(f, HatN(G, f, c, k))
FilterConv(G, f, k) == FilterDir(G, FilterDir(G, FilterDir(G, f, 1, k), 2, k), 3, k)
Filter(G, f, k, type) ==
  IF type = "multiplicative" THEN FilterMul(G, f, k) ELSE FilterConv(G, f, k)
=============================================================================
