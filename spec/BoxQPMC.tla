------------------------------ MODULE BoxQPMC -------------------------------
(* The projected Newton iteration on all small problems: the objective decreases and it ends at the minimizer. *)
EXTENDS BoxQP, TLC
D == {1, 2, 5}
O == {-1, 0, 2}
G == {-3, 0, 2}
Lo == {0, 1}
W == {0, 1, 3}
X == {0, 2}
VARIABLES p, x, it
v == <<p, x, it>>
PD(a, b, c) == a > 0 /\ a * c - b * b > 0
S(v2) == [i \in 1..Len(v2) |-> ToString(v2[i])]
Init == /\ p = [tag |-> "none"] /\ x = <<>> /\ it = 0
Pick == p.tag = "none" /\ \E a \in D, c \in D, b \in O : (PD(a, b, c)) = TRUE
        /\ \E q \in [1..2 -> G], lo \in [1..2 -> Lo], w \in [1..2 -> W], x0 \in [1..2 -> X] :
             /\ p' = [tag |-> "run", H |-> << <<ToString(a), ToString(b)>>, <<ToString(b), ToString(c)>> >>, q |-> S(q), lo |-> S(lo), hi |-> S([i \in 1..2 |-> lo[i] + w[i]])]
             /\ x' = Clip(S(x0), S(lo), S([i \in 1..2 |-> lo[i] + w[i]]))
             /\ it' = 0
Iterate == /\ p.tag = "run" /\ ~AtEnd(p.H, p.q, p.lo, p.hi, x)
           /\ x' = Step(p.H, p.q, p.lo, p.hi, x) /\ it' = it + 1 /\ UNCHANGED p
Next == Pick \/ Iterate
Spec == Init /\ [][Next]_v
Inside == p.tag = "run" => Within(x, p.lo, p.hi)
Ends == it <= 8
Solved == p.tag = "run" /\ AtEnd(p.H, p.q, p.lo, p.hi, x) => Kkt(p.H, p.q, p.lo, p.hi, x, "0")
Descends == [][p.tag = "run" /\ x' # x => RLt(Obj(p.H, p.q, x'), Obj(p.H, p.q, x))]_v
NoStall == [][(Iterate) => x' # x]_v
=============================================================================
