----------------------------- MODULE SettingsMC ------------------------------
(* Every history of changes to a few settings with values in and out of range. *)
EXTENDS Settings
Vals == {"-1", "0", "1/2", "1", "2", "inf", "nan"}
Lists == {<<>>, <<"1">>, <<"1", "1/2">>, <<"1/2", "1">>, <<"0">>, <<"nan">>, <<"1", "nan">>}
Some == {"preg", "reg_inc", "reg_dec", "reg_min", "th_stepinc", "alphas"}
O == [k |-> "ddp", dims |-> <<1>>, v |-> [n \in Some |-> Initial("ddp", <<1>>)[n]]]
MCInit == objs = [i \in {1, 2} |-> O]
Names == Some \cup {"xreg", "regfactor", "regmin"}
\* one object moves, the other shows that nothing leaks
MCNext == \E n \in Names : \E v \in (IF n = "alphas" THEN Lists ELSE Vals) : Set(1, n, v)
MCSpec == MCInit /\ [][MCNext]_objs
InRange == \A i \in DOMAIN objs : \A n \in Some : n = "th_stepinc" \/ Ok("ddp", n, objs[i].v[n], <<1>>)
Alone == objs[2] = O
\* bounds and limits
Bs == {<<>>, <<"-inf">>, <<"inf">>, <<"0">>, <<"1">>, <<"nan">>, <<"0", "1">>}
ASSUME \A ng \in 0..1, nh \in 0..1, lo \in Bs, up \in Bs :
  LET s == Con(ng, nh) IN
  /\ BoundsOk(s, lo, up) => LET b == Bounded(s, lo, up) IN Unbounded(b) = Unbounded(s) /\ b.ng + b.nh = Unbounded(b).nh /\ Bounded(Unbounded(b), lo, up) = b
  /\ BoundsOk(s, lo, up) => \A i \in 1..ng : RLt(lo[i], up[i])
=============================================================================
