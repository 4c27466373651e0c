-------------------------------- MODULE Cast ---------------------------------
(***************************************************************************)
(* Conversions between scalar types.  objs maps a slot to                  *)
(* [prec, nums, tags]: the numbers a component reports (each name a vector) *)
(* and its other properties (each name a text).  A conversion to single    *)
(* precision rounds every number, back to double it keeps every number,    *)
(* and nothing is shared: a change of one component is seen in no other.   *)
(***************************************************************************)
EXTENDS BigRat, Naturals, Sequences, FiniteSets, TLC
VARIABLE objs
F(a) == IF RIsNum(a) THEN RFloat32(a) ELSE a
FV(v) == [i \in 1..Len(v) |-> F(v[i])]
Rounded(o) == [o EXCEPT !.nums = [k \in DOMAIN o.nums |-> FV(o.nums[k])]]
Converted(o) == IF o.prec = "double" THEN [Rounded(o) EXCEPT !.prec = "float"] ELSE [o EXCEPT !.prec = "double"]
SameNums(m, n) == DOMAIN m = DOMAIN n /\ \A k \in DOMAIN m : VEq(m[k], n[k])
Same(o, p) == o.prec = p.prec /\ o.tags = p.tags /\ SameNums(o.nums, p.nums)
\* two components denote the same mathematical object, up to single precision
Alike(o, p) == o.tags = p.tags /\ SameNums(Rounded(o).nums, Rounded(p).nums)
Put(s, o) == objs' = (s :> o) @@ objs
Cast(s, t) == Put(t, Converted(objs[s]))
=============================================================================
