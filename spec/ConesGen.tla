------------------------------ MODULE ConesGen -------------------------------
(* Histories of up to four cones: constructed, reconfigured, updated, copied, assigned, derived, converted. *)
EXTENDS Cones, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, kinds
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Log(op) == hist' = Append(hist, op)
Ax(k, c, s) == CASE k = 1 -> <<<<"1", "0", "0">>, <<"0", c, RNeg(s)>>, <<"0", s, c>>>> [] k = 2 -> <<<<c, "0", s>>, <<"0", "1", "0">>, <<RNeg(s), "0", c>>>> [] OTHER -> <<<<c, RNeg(s), "0">>, <<s, c, "0">>, <<"0", "0", "1">>>>
Pairs == {<<"1", "0">>, <<"3/5", "4/5">>, <<"-5/13", "12/13">>, <<"0", "-1">>, <<"-1", "0">>, <<"24/25", "-7/25">>}
Rot(x) == LET p == TLCEval(R(Pairs, 0)) q == TLCEval(R(Pairs, 0)) a == TLCEval(R(1..3, 0)) b == TLCEval(R(1..3, 0)) IN TLCEval(MMul(Ax(a, p[1], p[2]), Ax(b, q[1], q[2])))
Mu(x) == R({"0", "1/4", "7/10", "1", "3/2", "-1/2"}, 0)
Min(x) == R({"0", "0", "5", "1/10", "-3"}, 0)
Max(x) == R({"10", "1000", "inf", "-1", "20", "3"}, 0)
Bx(x) == <<R({"1/5", "1/10", "2", "3/100", "-1"}, 0), R({"1/5", "1/10", "1", "1/20", "-2"}, 0)>>
\* the constructors take the box as it is; only the setter replaces a negative one
Bp(x) == <<R({"1/5", "1/10", "2", "3/100"}, 0), R({"1/5", "1/10", "1", "1/20"}, 0)>>
Nf(x) == R({2, 4, 4, 6, 8, 12, 3, 5, 16}, 0)
Normal(x) == R({<<"0", "0", "1">>, <<"0", "3/5", "4/5">>, <<"-2/3", "1/3", "2/3">>, <<"0", "0", "3">>, <<"4", "0", "-3">>, <<"6/7", "-2/7", "3/7">>, <<"1", "2", "2">>}, 0)
Of(S) == {d \in DOMAIN kinds : kinds[d] \in S}
Ops == IF Of({"friction", "wrench", "cop"}) = {} THEN {"new"}
       ELSE {"new", "newd", "set", "set2", "set3", "set4", "update", "update2", "copy", "assign", "cast"}
            \cup (IF Of({"wrench"}) = {} THEN {} ELSE {"cop", "wupd"}) \cup (IF Of({"friction"}) = {} THEN {} ELSE {"fupd", "nsurf"})
Put(d, k) == kinds' = [kinds EXCEPT ![d] = k]
Fields(k) == CASE k = "friction" -> {"mu", "min", "max", "inner", "R"} [] k = "wrench" -> {"mu", "min", "max", "inner", "R", "box"} [] OTHER -> {"R", "box"}
Value(f) == CASE f = "mu" -> Mu(0) [] f = "min" -> Min(0) [] f = "max" -> Max(0) [] f = "inner" -> R(BOOLEAN, 0) [] f = "box" -> Bx(0) [] OTHER -> Rot(0)
GNext ==
  /\ Len(hist) < MaxOps
  /\ \E k \in One(R(Ops, 0)), d \in One(R(1..4, 0)), kind \in One(R({"friction", "wrench", "wrench", "cop"}, 0)) :
     \E s \in One(IF Of({"friction", "wrench", "cop"}) = {} THEN d ELSE R(Of({"friction", "wrench", "cop"}), 0)) :
     CASE k = "new" -> Log([op |-> "new", d |-> d, kind |-> kind, R |-> Rot(0), mu |-> Mu(0), nf |-> Nf(0), inner |-> R(BOOLEAN, 0), min |-> Min(0), max |-> Max(0), box |-> Bp(0), old |-> R(1..4, 0) = 1]) /\ Put(d, kind)
       [] k = "newd" -> Log([op |-> "newd", d |-> d, kind |-> kind]) /\ Put(d, kind)
       [] k \in {"set", "set2", "set3", "set4"} -> \E f \in One(R(Fields(kinds[s]), 0)) : Log([op |-> "set", d |-> s, f |-> f, v |-> Value(f)]) /\ UNCHANGED kinds
       [] k \in {"update", "update2"} -> Log([op |-> "update", d |-> s]) /\ UNCHANGED kinds
       [] k = "copy" -> Log([op |-> "copy", d |-> d, s |-> s]) /\ Put(d, kinds[s])
       [] k = "assign" -> \E t \in One(R(Of({kinds[s]}), 0)) : Log([op |-> "assign", d |-> t, s |-> s]) /\ UNCHANGED kinds
       [] k = "cast" -> Log([op |-> "cast", d |-> s]) /\ UNCHANGED kinds
       [] k = "cop" -> \E w \in One(R(Of({"wrench"}), 0)) : Log([op |-> "cop", d |-> d, s |-> w]) /\ Put(d, "cop")
       [] k = "wupd" -> \E w \in One(R(Of({"wrench"}), 0)) : Log([op |-> "wupd", d |-> w, R |-> Rot(0), mu |-> Mu(0), min |-> Min(0), max |-> Max(0), box |-> Bx(0)]) /\ UNCHANGED kinds
       [] k = "fupd" -> \E w \in One(R(Of({"friction"}), 0)) : Log([op |-> "fupd", d |-> w, n |-> Normal(0), mu |-> Mu(0), inner |-> R(BOOLEAN, 0), min |-> Min(0), max |-> Max(0)]) /\ UNCHANGED kinds
       [] OTHER -> \E w \in One(R(Of({"friction"}), 0)) : Log([op |-> "nsurf", d |-> w, n |-> Normal(0)]) /\ UNCHANGED kinds
GSpec == hist = <<>> /\ kinds = [d \in 1..4 |-> "none"] /\ [][GNext]_<<hist, kinds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
