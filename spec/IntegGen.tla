------------------------------ MODULE IntegGen -------------------------------
(* Histories of integrated models: constructions, parameter changes, data objects, evaluations. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, cur, ds \* what was accepted last (<<>> before), data objects created since
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-1", "0", "0", "1", "1/2", "-1/4", "3/4", "1/8"}
Big == {"-2", "1", "3", "1/2"}
Vec(k, x) == TLCEval([i \in 1..k |-> RandomElement(Nums)])
Mat(r, c, x) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(Nums)])])
Blocks(k) == IF k \in {"none", "zero"} THEN 1 ELSE IF k = "one" THEN 2 ELSE 3
\* a polynomial function of z with n rows: up to three products; for the acceleration of an affine one none of two controls
Idx(n, nz, m, x) == TLCEval([j \in 1..m |-> <<RandomElement(1..n), RandomElement(1..nz), RandomElement(1..nz)>>])
Sym(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i <= j THEN A[i][j] ELSE A[j][i]]]
Lim(n, s, none, x) == TLCEval([i \in 1..n |-> IF none THEN (IF s = "lb" THEN "-inf" ELSE "inf") ELSE RandomElement(IF s = "lb" THEN {"-2", "-1/2", "-inf"} ELSE {"2", "1/2", "inf"})])
DamOf(st, nv, nw, q) ==
  LET nz == 2 * nv + nw IN
  [st |-> st, nv |-> nv, nw |-> nw, ngT |-> q.ngT, nhT |-> q.nhT, lim |-> q.lim,
   ac |-> Vec(nv, 0), aL |-> Mat(nv, nz, 0), ai |-> Idx(nv, nz, q.m, 0), ak |-> Vec(q.m, 0),
   gc |-> Vec(q.ng, 0), gL |-> Mat(q.ng, nz, 0), gi |-> IF q.ng = 0 THEN <<>> ELSE Idx(q.ng, nz, q.mg, 0), gk |-> IF q.ng = 0 THEN <<>> ELSE Vec(q.mg, 0),
   hc |-> Vec(q.nh, 0), hL |-> Mat(q.nh, nz, 0), hi |-> IF q.nh = 0 THEN <<>> ELSE Idx(q.nh, nz, q.mh, 0), hk |-> IF q.nh = 0 THEN <<>> ELSE Vec(q.mh, 0),
   rc |-> Vec(q.nr, 0), rL |-> Mat(q.nr, nz, 0), ri |-> IF q.nr = 0 THEN <<>> ELSE Idx(q.nr, nz, 1, 0), rk |-> IF q.nr = 0 THEN <<>> ELSE Vec(1, 0),
   H |-> Sym(Mat(nz, nz, 0)), c |-> Vec(nz, 0), lb |-> Lim(nw, "lb", ~q.lim, 0), ub |-> Lim(nw, "ub", ~q.lim, 0), glb |-> Lim(q.ng, "lb", FALSE, 0), gub |-> Lim(q.ng, "ub", FALSE, 0)]
Par(x) == LET ng == R(0..2, x) nh == R(0..2, x) IN
          [ng |-> ng, nh |-> nh, nr |-> R(0..2, x), m |-> R(0..3, x), mg |-> R(0..2, x), mh |-> R(0..2, x), lim |-> R(BOOLEAN, x), ngT |-> 0, nhT |-> 0]
Log(op) == hist' = Append(hist, op)
Dts == {"1/2", "1/4", "1/8", "1/3", "1", "1/100", "0", "-1"}
Base(x) == [nv |-> R(1..2, x), nw |-> R(1..2, x), scheme |-> R({"euler", "rk2", "rk3", "rk4"}, x), ctrl |-> R({"none", "zero", "one", "two3", "two4"}, x), dt |-> R(Dts, x), resid |-> R(BOOLEAN, x), bad |-> R(1..12, x) = 1, heis |-> R(1..3, x) = 1]
St(b) == IF b.heis THEN "heis" ELSE "vec"
Nv(b) == IF b.heis THEN 3 ELSE b.nv
GNew == \E b \in One(Base(0)) : \E q0 \in One(Par(0)) : \E q \in One([q0 EXCEPT !.ngT = R(0..q0.ng, 0), !.nhT = R(0..q0.nh, 0)]) :
        \E D \in One(DamOf(St(b), Nv(b), b.nw, q)) :
        \E wrong \in One(b.bad /\ b.ctrl # "none") :
          /\ Log([op |-> "new", scheme |-> b.scheme, ctrl |-> b.ctrl, cnw |-> IF wrong THEN b.nw + 1 ELSE b.nw, dt |-> b.dt, resid |-> b.resid] @@ D)
          /\ IF wrong THEN UNCHANGED <<cur, ds>> ELSE cur' = [nx |-> 2 * Nv(b), nw |-> b.nw, ctrl |-> b.ctrl, st |-> St(b)] /\ ds' = {}
GSetDiff == \E b \in One(Base(0)) : \E q0 \in One(Par(0)) : \E q \in One([q0 EXCEPT !.ngT = R(0..q0.ng, 0), !.nhT = R(0..q0.nh, 0)]) :
            \E nw \in One(IF b.bad THEN cur.nw + 1 ELSE cur.nw) : \E D \in One(DamOf(St(b), Nv(b), nw, q)) :
              /\ Log([op |-> "setdiff"] @@ D)
              /\ IF b.bad THEN UNCHANGED <<cur, ds>> ELSE cur' = [cur EXCEPT !.nx = 2 * Nv(b), !.st = St(b)] /\ ds' = {}
GCheck == \E b \in One(Base(0)), w \in One(R({"own", "null", "foreign", "other", "model"}, 0)) : \E D \in One(DamOf(cur.st, cur.nx \div 2, cur.nw, Par(0))) :
            Log([op |-> "check", w |-> w, ctrl |-> cur.ctrl, cnw |-> cur.nw, dt |-> "1/2", resid |-> TRUE] @@ D) /\ UNCHANGED <<cur, ds>>
GEval == \E d \in One(R(ds, 0)), t \in One(R(1..4, 0) = 1), df \in One(R(1..4, 0) # 1), bad \in One(R(1..14, 0)) : \E nu \in One(cur.nw * Blocks(cur.ctrl)) :
         /\ Log([op |-> "eval", d |-> d, t |-> t, diff |-> df, x |-> Vec(IF bad = 1 THEN cur.nx + 1 ELSE IF bad = 2 THEN cur.nx - 1 ELSE cur.nx, 0), u |-> Vec(IF bad = 3 THEN nu + 1 ELSE IF bad = 4 THEN nu - 1 ELSE nu, 0)])
         /\ UNCHANGED <<cur, ds>>
GQuasi == \E d \in One(R(ds, 0)) : Log([op |-> "quasi", d |-> d, x |-> [i \in 1..cur.nx |-> IF i <= cur.nx \div 2 THEN RandomElement(Nums) ELSE "0"]]) /\ UNCHANGED <<cur, ds>>
Kinds == IF cur = <<>> THEN {"new"} ELSE IF ds = {} THEN {"data"} ELSE {"new", "setdt", "setdiff", "data", "check", "quasi", "eval", "eval1", "eval2", "eval3", "eval4", "eval5", "eval6"}
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Kinds, 0)) :
            CASE k = "new" -> GNew
              [] k = "setdt" -> Log([op |-> "setdt", dt |-> R(Dts, 0)]) /\ UNCHANGED <<cur, ds>>
              [] k = "setdiff" -> GSetDiff [] k = "check" -> GCheck [] k = "quasi" -> GQuasi
              [] k = "data" -> \E d \in One(R(1..3, 0)) : Log([op |-> "data", d |-> d]) /\ ds' = ds \cup {d} /\ UNCHANGED cur
              [] OTHER -> GEval
GSpec == hist = <<>> /\ cur = <<>> /\ ds = {} /\ [][GNext]_<<hist, cur, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
