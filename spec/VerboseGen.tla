------------------------------ MODULE VerboseGen ------------------------------
(* Histories of configurations, calls and solves. *)
EXTENDS Verbose, Json
CONSTANTS MaxOps, Slots
VARIABLE hist
R(S, x) == RandomElement(S)
One(v) == {TLCEval(v)}
Log(op) == hist' = Append(hist, op)
Nums == {"0", "1", "-1", "1/3", "-2/3", "123456/7", "-1/1000003", "9999/10000", "99996/10", "-5/2", "1/8", "1/1048576", "-1234567", "1000000000", "99999999/3", "1/9", "nan", "inf", "-inf"}
Steps == {"1", "1/2", "1/4", "1/512", "0", "1/3", "1/100000"}
Vals(x) == TLCEval([i \in 1..15 |-> IF i = 8 THEN RandomElement(Steps) ELSE RandomElement(Nums)])
GNew(x) == \E s \in One(R(Slots, x)), l \in One(R(0..4, x)), p \in One(R({-1, 0, 1, 2, 3, 5, 8}, x)), d \in One(R(1..3, x) = 1) :
  IF d THEN \E q \in One(R({2, 3}, x)) : Log([op |-> "default", s |-> s, p |-> q]) /\ Put(s, [Default EXCEPT !.level = IF q = 3 THEN 4 ELSE 2]) /\ out' = <<>>
  ELSE Log([op |-> "new", s |-> s, level |-> l, p |-> p]) /\ New(s, l, p)
GLevel(x) == \E s \in One(R(DOMAIN vb, x)), l \in One(R(0..4, x)) : Log([op |-> "level", s |-> s, level |-> l]) /\ SetLevel(s, l)
GPrec(x) == \E s \in One(R(DOMAIN vb, x)), p \in One(R({-3, -1, 0, 1, 2, 4, 7}, x)) : Log([op |-> "precision", s |-> s, p |-> p]) /\ SetPrecision(s, p)
GCall(x) == \E s \in One(R(DOMAIN vb, x)), i \in One(R({0, 1, 2, 9, 10, 11, 19, 20, 99, 100, 105, 1000, 12345, 12340}, x)), v \in One(Vals(x)) :
  Log([op |-> "call", s |-> s, iter |-> i, v |-> v]) /\ UNCHANGED <<vb, out>>
GSolve(x) == \E s \in One(R(DOMAIN vb, x)), k \in One(R({"ddp", "fddp", "boxfddp", "intro"}, x)), n \in One(R({1, 3, 12, 25}, x)), c \in One(R({"0", "1/8", "1/2", "-2"}, x)) :
  Log([op |-> "solve", s |-> s, k |-> k, n |-> n, c |-> c]) /\ UNCHANGED <<vb, out>>
GInit == vb = [s \in {} |-> 0] /\ out = <<>> /\ hist = <<[op |-> "reset"]>>
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in {RandomElement(IF DOMAIN vb = {} THEN {"new"} ELSE {"new", "level", "prec", "call", "call2", "call3", "solve"})} :
            CASE k = "new" -> GNew(0) [] k = "level" -> GLevel(0) [] k = "prec" -> GPrec(0) [] k = "solve" -> GSolve(0) [] OTHER -> GCall(0)
GSpec == GInit /\ [][GNext]_<<vb, out, hist>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
