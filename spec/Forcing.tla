------------------------------- MODULE Forcing -------------------------------
(***************************************************************************)
(* The two immersed boundary forcings (C21, C22) on top of IB.             *)
(* Lagrangian vector fields are sequences of d * n numbers, component by   *)
(* component, in units of 2^-16; body velocities and flow are integers;    *)
(* coefficients come in quarters and time steps in eighths.                *)
(***************************************************************************)
EXTENDS IB
\* w (2^-20) times an integer, to 2^-16
MulInt(u, w) == u * w
Round(x, m) == IF x >= 0 THEN (x + m \div 2) \div m ELSE -((-x + m \div 2) \div m)
CompE(G, x, c) == SubSeq(x, (c - 1) * G.n + 1, c * G.n)
CompL(x, c, n) == SubSeq(x, (c - 1) * n + 1, c * n)
\* interpolated flow: weights sum to one, so the cell volume cancels
FlowAt(G, u, bs, ws) == LET n == Len(bs) IN
  [q \in 1..(G.d * n) |-> LET c == ((q - 1) \div n) + 1 i == ((q - 1) % n) + 1
                          IN Round(Gather(G, CompE(G, u, c), bs[i], ws[i], MulInt), 16)]
Mismatch(flow, body) == [q \in 1..Len(flow) |-> flow[q] - Q16 * body[q]]
\* (kq pm + cq vm) / 4 without leaving 32 bits
Quarter(k, x) == (k * (x \div 4)) + Round(k * (x % 4), 4)
PIForce(kq, cq, pm, vm) == [q \in 1..Len(pm) |-> Quarter(kq, pm[q]) + Quarter(cq, vm[q])]
Advance(pm, vm, dt8) == [q \in 1..Len(pm) |-> pm[q] + Round(dt8 * vm[q], 8)]
\* implicit Brinkmann update with coefficient kq / 4 and step dt8 / 8
Penalised(flow, body, kq, dt8) == [q \in 1..Len(flow) |->
   LET m == kq * dt8 d == flow[q] - Q16 * body[q]      \* pen = body + (flow - body) / (1 + m / 32)
       a == d \div (32 + m) r == d % (32 + m)
   IN Q16 * body[q] + 32 * a + Round(32 * r, 32 + m)]
Minus(x, y) == [q \in 1..Len(x) |-> x[q] - y[q]]
FluxForce(flux, dt8) == [q \in 1..Len(flux) |-> 8 * (flux[q] \div dt8) + Round(8 * (flux[q] % dt8), dt8)]
\* spreading of Lagrangian values f (2^-16) with weights 2^-20
RECURSIVE SpreadC(_, _, _, _, _, _)
SpreadC(G, e, bs, ws, f, c) == IF c > G.d THEN <<>>
   ELSE Scatter(G, CompE(G, e, c), bs, ws, CompL(f, c, Len(bs)), MulQ20) \o SpreadC(G, e, bs, ws, f, c + 1)
SpreadOn(G, e, bs, ws, f) == SpreadC(G, e, bs, ws, f, 1)
=============================================================================
