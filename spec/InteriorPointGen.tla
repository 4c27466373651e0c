-------------------------- MODULE InteriorPointGen ---------------------------
(* Histories of posed problems: bases, evaluations in any order, accepted points, changed nodes and start points, solves. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, cur
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-1", "0", "1/2", "1", "3/4", "-1/4", "-1/2"}
Coef == {"-1", "1", "1/2", "2", "-3/4", "1/4"}
Vec(k, S) == TLCEval([i \in 1..k |-> RandomElement(S)])
Idx(n, nz, m) == TLCEval([j \in 1..m |-> <<RandomElement(1..n), RandomElement(1..nz + 1), RandomElement(1..nz + 1), RandomElement(1..nz + 1)>>])
Fn(p, n, nz, m) == ((p \o "n") :> n) @@ ((p \o "i") :> Idx(n, nz, m)) @@ ((p \o "k") :> Vec(m, Coef))
\* affine rows
Affine(p, n, nz, m) == ((p \o "n") :> n) @@ ((p \o "i") :> TLCEval([j \in 1..m |-> <<RandomElement(1..n), RandomElement(1..nz + 1), nz + 1, nz + 1>>])) @@ ((p \o "k") :> Vec(m, {"-1", "1", "1/2", "-1/4"}))
\* a positive square of every entry, and linear terms
Bowl(p, nz, m) == ((p \o "n") :> 1) @@ ((p \o "i") :> TLCEval([j \in 1..nz + m |-> IF j <= nz THEN <<1, j, j, nz + 1>> ELSE <<1, RandomElement(1..nz), nz + 1, nz + 1>>]))
                  @@ ((p \o "k") :> TLCEval([j \in 1..nz + m |-> IF j <= nz THEN RandomElement({"1", "1/2", "2", "1/4"}) ELSE RandomElement(Coef)]))
LbSet == {"-2", "-1/2", "-inf", "0", "-1"}
UbSet == {"2", "1/2", "inf", "1"}
Node(p, n, nu, nice, lim) ==
  ((p \o "nu") :> nu) @@ ((p \o "lb") :> IF lim THEN Vec(nu, LbSet) ELSE TLCEval([i \in 1..nu |-> "-inf"])) @@ ((p \o "ub") :> IF lim THEN Vec(nu, UbSet) ELSE TLCEval([i \in 1..nu |-> "inf"]))
  @@ (IF nice THEN Affine(p \o "f", n, n + nu, R(1..6, p)) @@ Bowl(p \o "l", n + nu, R(1..3, p)) ELSE Fn(p \o "f", n, n + nu, R(1..5, p)) @@ Fn(p \o "l", 1, n + nu, R(1..4, p)))
Log(op) == hist' = Append(hist, op)
Str == <<"1", "2", "3", "4">>
List(k, n) == TLCEval([i \in 1..k |-> Vec(n, Nums)])
Us(nus) == TLCEval([i \in 1..Len(nus) |-> Vec(nus[i], Nums)])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
NVar == (Len(cur.nus) + 1) * cur.n + Sum(cur.nus)
RECURSIVE Nodes(_, _, _, _, _)
Nodes(t, n, nus, nice, lim) == IF t > Len(nus) THEN [x \in {} |-> 0] ELSE Node(Str[t], n, nus[t], nice, lim) @@ Nodes(t + 1, n, nus, nice, lim)
GNew == \E st \in One(R({"vec", "vec1", "heis"}, 0)), nice \in One(R(1..2, 0) = 1), lim \in One(R(BOOLEAN, 0)) :
        \E n \in One(IF st = "heis" THEN 6 ELSE R(1..3, 0)), T \in One(IF st = "heis" THEN R(1..2, 0) ELSE R(1..3, 0)) :
        \E nus \in One([t \in 1..T |-> R({0, 1, 1, 2, 2, 3}, t)]) :
          /\ Log([op |-> "new", st |-> IF st = "heis" THEN "heis" ELSE "vec", nx |-> n, T |-> T, x0 |-> Vec(n, Nums), Enu |-> R(0..2, 0), nice |-> nice]
                 @@ Nodes(1, n, nus, nice, lim) @@ (IF nice THEN Bowl("El", n, R(1..2, 0)) ELSE Fn("El", 1, n, R(1..3, 0))))
          /\ cur' = [n |-> n, nus |-> nus, nice |-> nice, z |-> <<>>]
GSet == Log([op |-> "set", xs |-> List(Len(cur.nus) + 1, cur.n), us |-> Us(cur.nus)]) /\ UNCHANGED cur
GX0 == Log([op |-> "x0", x0 |-> Vec(cur.n, Nums)]) /\ UNCHANGED cur
GSwap == \E t \in One(R(1..Len(cur.nus), 0)), nu \in One(R(0..3, 0)), lim \in One(R(BOOLEAN, 0)) :
         \E nus \in One([cur.nus EXCEPT ![t] = nu]) :
           /\ Log([op |-> "swap", t |-> t, xs |-> List(Len(nus) + 1, cur.n), us |-> Us(nus)] @@ Node("N", cur.n, nu, cur.nice, lim))
           /\ cur' = [cur EXCEPT !.nus = nus, !.z = <<>>]
\* often at a point used before
GEval == \E z \in One(IF cur.z # <<>> /\ R(1..2, 0) = 1 THEN cur.z ELSE Vec(NVar, Nums)) :
           /\ Log([op |-> "eval", what |-> R({"bounds", "start", "obj", "grad", "con", "con2", "jac", "jac2", "jac3", "hess", "hess2"}, 0), z |-> z, s |-> R({"1", "1/2", "0", "3"}, 0), junk |-> R({"0", "0", "5", "-1"}, 0)])
           /\ cur' = [cur EXCEPT !.z = z]
GFinal == Log([op |-> "final", z |-> Vec(NVar, Nums), cost |-> R(Coef, 0)]) /\ UNCHANGED cur
GSolve == Log([op |-> "solve", xs |-> List(Len(cur.nus) + 1, cur.n), us |-> Us(cur.nus), maxiter |-> IF cur.nice THEN R({0, 1, 3, 50, 100, 100}, 0) ELSE R({0, 1, 5, 20}, 0)]) /\ UNCHANGED cur
GNext == /\ Len(hist) < MaxOps
         /\ IF cur = <<>> THEN GNew
            ELSE \E k \in One(R(1..40, 0)) :
                 CASE k <= 3 -> GNew [] k \in 4..6 -> GSet [] k = 7 -> GX0 [] k \in 8..9 -> GSwap [] k \in 10..12 -> GFinal [] k \in 13..16 -> GSolve [] OTHER -> GEval
GSpec == hist = <<>> /\ cur = <<>> /\ [][GNext]_<<hist, cur>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
