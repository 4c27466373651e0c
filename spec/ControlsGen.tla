---------------------------- MODULE ControlsGen -----------------------------
EXTENDS Controls, Json, FiniteSets
CONSTANTS MaxOps
VARIABLES hist, m, made
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-2", "-1", "0", "1", "2", "1/2", "-1/4", "3", "5/8"}
Vec(n, x) == TLCEval([i \in 1..n |-> RandomElement(Nums)])
Mat(r, c, x) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(Nums)])])
Log(op) == hist' = Append(hist, op)
GInit == hist = <<>> /\ m = [k |-> "none", nw |-> 0] /\ made = {}
Off(n, b) == IF b = 1 THEN n + 1 ELSE IF b = 2 /\ n > 1 THEN n - 1 ELSE n
GNew == \E k \in One(R({"zero", "one", "two3", "two4"}, 0)), nw \in One(R(1..3, 0)) : Log([op |-> "new", k |-> k, nw |-> nw]) /\ m' = [k |-> k, nw |-> nw] /\ made' = {}
GData == \E d \in One(R(1..3, 0)) : Log([op |-> "data", d |-> d]) /\ made' = made \cup {d} /\ UNCHANGED m
GCalc == \E d \in One(R(made, 0)), b \in One(R(1..9, 0)), t \in One(R({"0", "1/4", "1/3", "1/2", "2/3", "1", "7/8"}, 0)), df \in One(R(BOOLEAN, 0)) :
         Log([op |-> "calc", d |-> d, t |-> t, diff |-> df, u |-> Vec(Off(NuOf(m.k, m.nw), b), 0)]) /\ UNCHANGED <<m, made>>
GParams == \E d \in One(R(made, 0)), b \in One(R(1..6, 0)), t \in One(R({"0", "1/4", "1"}, 0)) :
         Log([op |-> "params", d |-> d, t |-> t, w |-> Vec(Off(m.nw, b), 0)]) /\ UNCHANGED <<m, made>>
GBounds == \E b \in One(R(1..8, 0)), which \in One(R(1..4, 0)) :
           LET n(i, s) == IF which = i THEN Off(s, b) ELSE s
           IN Log([op |-> "bounds", lb |-> Vec(n(1, m.nw), 0), ub |-> [i \in 1..n(2, m.nw) |-> RandomElement(Nums \cup {"inf"})], nl |-> n(3, NuOf(m.k, m.nw)), nh |-> n(4, NuOf(m.k, m.nw))]) /\ UNCHANGED <<m, made>>
GMul == \E d \in One(R(made, 0)), b \in One(R(1..12, 0)), tr \in One(R(BOOLEAN, 0)), n \in One(R(0..3, 0)), mode \in One(R({"set", "add", "sub"}, 0)) :
        LET nu == NuOf(m.k, m.nw) n1 == IF tr /\ n = 0 THEN 1 ELSE n IN
        Log(IF tr THEN [op |-> "mulT", d |-> d, mode |-> mode, A |-> Mat(Off(m.nw, b), n1, 0), out |-> Mat(IF b > 2 THEN Off(nu, b - 2) ELSE nu, n1, 0)]
            ELSE [op |-> "mul", d |-> d, mode |-> mode, A |-> Mat(n, Off(m.nw, b), 0), out |-> Mat(n, IF b > 2 THEN Off(nu, b - 2) ELSE nu, 0)]) /\ UNCHANGED <<m, made>>
GNext == /\ Len(hist) < MaxOps
         /\ IF m.k = "none" THEN GNew ELSE IF made = {} THEN GData
            ELSE \E c \in One(R({"new", "data", "calc", "calc2", "calc3", "params", "params2", "bounds", "mul", "mul2", "mul3", "mul4"}, 0)) :
                 CASE c = "new" -> GNew [] c = "data" -> GData [] c \in {"calc", "calc2", "calc3"} -> GCalc [] c \in {"params", "params2"} -> GParams [] c = "bounds" -> GBounds [] OTHER -> GMul
GSpec == GInit /\ [][GNext]_<<hist, m, made>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
