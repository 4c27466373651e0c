------------------------------ MODULE NumDiffMC ------------------------------
(***************************************************************************)
(* Wrappers as a machine: evaluations of a component at running and        *)
(* terminal nodes write into data objects; the differences evaluate the    *)
(* component at perturbed points in scratch data.  Checked: derivatives of *)
(* the functions are what differences converge to (five-point differences, *)
(* exact for these functions, on both state spaces); a result depends on   *)
(* the component and the last evaluated point of its data object only.     *)
(***************************************************************************)
EXTENDS NumDiff
CONSTANTS MaxTerms, MaxSteps
VARIABLES F, st, data, steps
Pts == {<<"1", "-1/2">>, <<"0", "2">>}
HPts == {<<"1", "-1/2", "2", "0", "1", "0">>, <<"0", "1", "-1", "1/2", "0", "0">>}
U == {<<"1/2">>, <<"-1">>}
Terms == {<<1, p, q, s>> : p \in {1, 3}, q \in {2, 3}, s \in {1, 2, 4}}
Xs == IF st = "vec" THEN Pts ELSE HPts
Ds == {"d", "e"}
Init == /\ st \in {"vec", "heis"} /\ F = [n |-> 1, i |-> <<>>, k |-> <<>>] /\ steps = 0
        /\ data = [d \in Ds |-> [x |-> <<>>, u |-> <<>>, v |-> <<>>, jx |-> <<>>]]
Remap(t) == IF st = "vec" THEN t ELSE [t EXCEPT ![2] = IF @ = 3 THEN 7 ELSE @, ![3] = IF @ = 3 THEN 7 ELSE @, ![4] = IF @ = 4 THEN 8 ELSE 3]
Grow == /\ Len(F.k) < MaxTerms /\ steps = 0
        /\ \E t \in Terms, k \in {"1", "-3"} : F' = [F EXCEPT !.i = Append(@, Remap(t)), !.k = Append(@, k)]
        /\ UNCHANGED <<st, data, steps>>
Eval == /\ steps < MaxSteps /\ F.k # <<>> /\ steps' = steps + 1
        /\ \E d \in Ds, x \in Xs, u \in U : data' = [data EXCEPT ![d] = [x |-> x, u |-> u, v |-> Value(st, "l", F, x, u), jx |-> <<>>]]
        /\ UNCHANGED <<F, st>>
Diff == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \E d \in Ds : data[d].x # <<>> /\ data' = [data EXCEPT ![d].jx = InX(st, "l", F, data[d].x, data[d].u)]
        /\ UNCHANGED <<F, st>>
Next == Grow \/ Eval \/ Diff
Spec == Init /\ [][Next]_<<F, st, data, steps>>
Unit(n, i, h) == [j \in 1..n |-> IF j = i THEN h ELSE "0"]
Hh == "1/4"
\* exact for polynomials up to degree four
Five(f(_)) == RDiv(RSub(RMul("8", RSub(f("1/4"), f("-1/4"))), RSub(f("1/2"), f("-1/2"))), "3")
At(x, u) == FVal(F, x \o u)[1]
JacIsLimit == \A x \in Xs, u \in U :
  LET n == Len(x) IN
  /\ \A i \in 1..n : LET g(h) == At(SMove(st, x, Unit(n, i, h)), u) IN REq(Five(g), InX(st, "l", F, x, u)[1][i])
  /\ LET g(h) == At(x, <<RAdd(u[1], h)>>) IN REq(Five(g), InU(st, "l", F, x, u)[1][1])
\* second derivatives: on the group, along straight motions the function has degree up to six: compare the polynomial only in pairs where it is exact
Cross(f(_, _), h) == RDiv(RAdd(RSub(RSub(f(h, h), f(h, RNeg(h))), f(RNeg(h), h)), f(RNeg(h), RNeg(h))), RMul("4", RMul(h, h)))
\* Richardson on two steps removes the next order
CrossR(f(_, _)) == RDiv(RSub(RMul("4", Cross(f, "1/4")), Cross(f, "1/2")), "3")
HessIsLimit == \A x \in Xs, u \in U :
  LET n == Len(x) H == HXX(st, F, x, u) L == HXU(st, F, x, u) IN
  /\ \A i, j \in 1..n : LET g(a, b) == At(SMove(st, x, VAdd(Unit(n, i, a), Unit(n, j, b))), u) IN i # j => REq(CrossR(g), H[i][j])
  /\ \A i \in 1..n : LET g(a, b) == At(SMove(st, x, Unit(n, i, a)), <<RAdd(u[1], b)>>) IN REq(CrossR(g), L[i][1])
  /\ \A i, j \in 1..n : REq(H[i][j], H[j][i])
StateJac == \A x, y \in Xs :
  LET n == Len(x) d == SDiff(st, x, y) IN
  /\ VEq(SMove(st, x, d), y)
  /\ \A i, r \in 1..n : LET g(h) == SDiff(st, SMove(st, x, Unit(n, i, h)), y)[r] IN REq(Five(g), SDiffFirst(st, d)[r][i])
  /\ \A i, r \in 1..n : LET g(h) == SDiff(st, x, SMove(st, y, Unit(n, i, h)))[r] IN REq(Five(g), SDiffSecond(st, d)[r][i])
  /\ \A i, r \in 1..n : LET z == SMove(st, x, d) g(h) == SDiff(st, z, SMove(st, SMove(st, x, Unit(n, i, h)), d))[r] IN REq(Five(g), SFirst(st, d)[r][i])
  /\ \A i, r \in 1..n : LET z == SMove(st, x, d) g(h) == SDiff(st, z, SMove(st, x, VAdd(d, Unit(n, i, h))))[r] IN REq(Five(g), SSecond(st, d)[r][i])
Exact == steps = 0 => JacIsLimit /\ HessIsLimit /\ (F.k = <<>> => StateJac)
OwnPoint == \A d \in Ds : LET e == data[d] IN (e.x # <<>> => e.v = Value(st, "l", F, e.x, e.u)) /\ (e.jx # <<>> => e.jx = InX(st, "l", F, e.x, e.u))
=============================================================================
