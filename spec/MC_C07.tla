------------------------------- MODULE MC_C07 -------------------------------
(* Laws of the sine Heaviside function (C07) on the grid phi = k bw / 24.   *)
EXTENDS Machine
CONSTANT Deep
VARIABLE k
Init == k = -30
Next == k < 30 /\ k' = k + 1
Spec == Init /\ [][Next]_k
H == Heaviside(k)
Range == 0 <= H /\ H <= Q29
Saturates == (k > 24 => H = Q29) /\ (k < -24 => H = 0)
Ends == (k = 24 => Abs(H - Q29) <= 1) /\ (k = -24 => Abs(H) <= 1)
Half == k = 0 => H = Q29 \div 2
Complement == Abs(H + Heaviside(-k) - Q29) <= 2
Monotone == [][Heaviside(k') >= H - 1]_k
\* steepest in the middle: one blend width has slope one
Slope == Abs(k) < 24 => Heaviside(k + 1) - H <= Q29 \div 24 + 2
\* tabulated sine: exact at the quarter points
Quarter == Abs(Heaviside(12) - (Q29 \div 2 + Q29 \div 4 + 85445659)) <= 2
=============================================================================
