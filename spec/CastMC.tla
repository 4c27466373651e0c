------------------------------- MODULE CastMC --------------------------------
(* All histories of conversions and changes of a component with two numbers. *)
EXTENDS Cast
Vals == {"1/10", "1/2", "1/3"}
Obj(a, b) == [prec |-> "double", nums |-> [w |-> <<a>>, lb |-> <<b, "inf">>], tags |-> [n |-> "2"]]
VARIABLE last
MCInit == objs = [s \in {"a"} |-> Obj("1/10", "1/2")] /\ last = ""
\* what is set in a component of single precision is rounded
Given(p, v) == IF p = "float" THEN F(v) ELSE v
MCNext == \/ \E s \in DOMAIN objs, t \in {"a", "b", "c"} : s # t /\ Cast(s, t) /\ last' = t
          \/ \E s \in DOMAIN objs, v \in Vals : Put(s, [objs[s] EXCEPT !.nums.w = <<Given(objs[s].prec, v)>>]) /\ last' = s
MCSpec == MCInit /\ [][MCNext]_<<objs, last>>
\* a component of single precision holds numbers of single precision only, and converting it back and forth is the identity
Representable == \A s \in DOMAIN objs : objs[s].prec = "float" => Same(Rounded(objs[s]), objs[s]) /\ Same(Converted(Converted(objs[s])), objs[s])
\* converting twice gives the rounded original
Twice == \A s \in DOMAIN objs : objs[s].prec = "double" => Same(Converted(Converted(objs[s])), Rounded(objs[s]))
AlikeKept == \A s \in DOMAIN objs : Alike(objs[s], Converted(objs[s]))
Alone == [][\A s \in DOMAIN objs : s # last' => objs'[s] = objs[s]]_<<objs, last>>
=============================================================================
