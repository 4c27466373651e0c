------------------------------- MODULE SquashMC ------------------------------
(* The saturation on a grid of bounds, smoothing and inputs: strictly inside the bounds, increasing, contracting, symmetric about *)
(* the middle, approaching the clamp as the smoothing vanishes; its slope is the limit of difference quotients.                   *)
EXTENDS Squash
VARIABLES lb, ub, smooth, s
Ps == {"-5", "-2", "-1", "-1/2", "0", "1/3", "1", "2", "7"}
MCInit == lb \in {"-2", "0", "-1/2"} /\ ub \in {"0", "1", "5/2"} /\ RLe(lb, ub) /\ smooth \in {"0", "1/10", "1/2", "2"} /\ s \in Ps
MCSpec == MCInit /\ [][FALSE /\ UNCHANGED <<lb, ub, smooth, s>>]_<<lb, ub, smooth, s>>
SQ == [lb |-> <<lb>>, ub |-> <<ub>>, smooth |-> smooth]
F(t) == SValue(SQ, <<t>>)[1]
G(t) == SSlope(SQ, <<t>>)[1]
Wide == RLt(lb, ub) /\ RLt("0", smooth)
Inside == IF Wide THEN RLt(lb, F(s)) /\ RLt(F(s), ub) ELSE RLe(lb, RAdd(F(s), "1/1000000000")) /\ RLe(F(s), RAdd(ub, "1/1000000000"))
Increasing == \A t \in Ps : (Wide /\ RLt(s, t)) => RLt(F(s), F(t))
Contracts == IF Wide THEN RLt("0", G(s)) /\ RLt(G(s), "1") ELSE TRUE
Symmetric == LET m == RMul(Half, RAdd(lb, ub)) IN RClose(RSub(F(RAdd(m, s)), m), RSub(m, F(RSub(m, s))), "1/1000000000")
Clamp(t) == IF RLt(t, lb) THEN lb ELSE IF RLt(ub, t) THEN ub ELSE t
Limit == IF REq(smooth, "0") THEN RClose(F(s), Clamp(s), "1/1000000000") ELSE TRUE
H == "1/8192"
Slope == IF SSmooth(SQ, <<s>>) THEN RClose(RDiv(RSub(F(RAdd(s, H)), F(RSub(s, H))), RMul("2", H)), G(s), "1/1000") ELSE TRUE
=============================================================================
