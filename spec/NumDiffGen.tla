----------------------------- MODULE NumDiffGen ------------------------------
(* Histories of wrapped components: constructions, data objects, disturbances, evaluations. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, cur, ds
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-1", "0", "1/2", "1", "3/4", "-1/4", "-1/2"}
Wide == Nums \cup {"3", "-5/2"}
Coef == {"-1", "1", "1/2", "2", "-3/4", "1/4"}
Vec(k, S) == TLCEval([i \in 1..k |-> RandomElement(S)])
Mat(r, c, S) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(S)])])
Idx(n, nz, m) == TLCEval([j \in 1..m |-> <<RandomElement(1..n), RandomElement(1..nz + 1), RandomElement(1..nz + 1), RandomElement(1..nz + 1)>>])
Fn(p, n, nz, m0) == LET m == IF n = 0 THEN 0 ELSE m0 IN
  ((p \o "n") :> n) @@ ((p \o "i") :> Idx(n, nz, m)) @@ ((p \o "k") :> Vec(m, Coef))
Lim(n, s, none) == TLCEval([i \in 1..n |-> IF none THEN (IF s = "lb" THEN "-inf" ELSE "inf") ELSE RandomElement(IF s = "lb" THEN {"-2", "-1/2", "-inf"} ELSE {"2", "1/2", "inf"})])
Kinds == {"action", "da", "act", "ctl", "cost", "res", "con", "atn", "state", "ctc"}
Par(x) == [kind |-> R(Kinds \cup {"action1", "da1", "action2", "da2", "state1"}, x), heis |-> R(1..3, x) = 1, nv |-> R(1..2, x), nu |-> R(1..2, x), nr |-> R(0..3, x), ng |-> R(0..2, x), nh |-> R(0..2, x),
           gauss |-> R(1..3, x) = 1, shared |-> R(1..3, x) = 1, lim |-> R(BOOLEAN, x), glim |-> R(BOOLEAN, x), xlim |-> R(BOOLEAN, x), T |-> R(BOOLEAN, x), m |-> R(1..4, x), m2 |-> R(1..5, x), m3 |-> R(1..3, x)]
Log(op) == hist' = Append(hist, op)
KindOf(k) == CASE k \in {"action1", "action2"} -> "action" [] k \in {"da1", "da2"} -> "da" [] k = "state1" -> "state" [] OTHER -> k
Fns(kind, p, q, nx, nu, ng, nh) ==
  LET nz == IF p = "R" THEN nx + nu ELSE nx
      lr == Fn(p \o "l", 1, nz, q.m2) @@ Fn(p \o "r", q.nr, nz, q.m) @@ Fn(p \o "g", ng, nz, q.m) @@ Fn(p \o "h", nh, nz, q.m3)
  IN CASE kind = "action" -> lr @@ (IF p = "R" THEN Fn("Rf", nx, nz, q.m + q.m3) ELSE [x \in {} |-> ""])
       [] kind = "da" -> lr @@ (IF p = "R" THEN Fn("Ra", nx \div 2, nz, q.m + q.m3) ELSE [x \in {} |-> ""])
       [] kind = "act" -> IF p = "R" THEN Fn("Rv", 1, nx, q.m2) ELSE [x \in {} |-> ""]
       [] kind = "ctl" -> IF p = "R" THEN Fn("Rw", q.nv, nz, q.m2) ELSE [x \in {} |-> ""]
       [] kind = "cost" -> Fn(p \o "l", 1, nz, q.m2) @@ Fn(p \o "r", q.nr, nz, q.m)
       [] kind = "res" -> Fn(p \o "r", q.nr, nz, q.m2)
       [] kind = "con" -> Fn(p \o "g", ng, nz, q.m) @@ Fn(p \o "h", nh, nz, q.m2)
       [] kind = "ctc" -> IF p = "R" THEN Fn("Rd", q.nr, nx, q.m2) @@ Fn("Rj", q.nr * (nx \div 2), nx, q.m + q.m3) ELSE [x \in {} |-> ""]
       [] kind = "atn" -> Fn(p \o "t", nx \div 2, nz, q.m2)
       [] kind = "state" -> [x \in {} |-> ""]
HasSt(k) == k \notin {"act", "ctl"}
NonEmpty(q) == IF KindOf(q.kind) = "con" /\ q.ng + q.nh = 0 THEN [q EXCEPT !.nh = 1] ELSE q
GNew == \E q \in One(NonEmpty(Par(0))) : \E k \in One(KindOf(q.kind)) :
        \E st \in One(IF HasSt(k) /\ k # "ctc" /\ q.heis THEN "heis" ELSE "vec") : \E nx \in One(IF st = "heis" THEN 6 ELSE IF k = "act" THEN q.nv + q.nu - 1 ELSE IF k = "ctl" THEN 1 ELSE 2 * q.nv) :
        \E nu \in One(IF k = "act" THEN 0 ELSE q.nu) :
        \E ngT \in One(IF k = "con" THEN q.ng ELSE R(0..2, 0)), nhT \in One(IF k = "con" THEN q.nh ELSE R(0..2, 0)) :
        \E gm \in One(IF k = "con" THEN q.ng ELSE IF q.ng > ngT THEN q.ng ELSE ngT) :
        \E bad \in One(k = "da" /\ q.gauss /\ q.nr = 1) :
          /\ Log([op |-> "new", kind |-> k, st |-> st, nx |-> nx, nu |-> nu, nr |-> q.nr, gauss |-> q.gauss, shared |-> q.shared, T |-> q.T, nw |-> q.nv,
                  ng |-> q.ng, nh |-> q.nh, ngT |-> ngT, nhT |-> nhT, wts |-> Vec(q.nr, {"1", "2", "1/2", "0"}),
                  ulb |-> Lim(nu, "lb", ~q.lim), uub |-> Lim(nu, "ub", ~q.lim), glb |-> Lim(gm, "lb", ~q.glim), gub |-> Lim(gm, "ub", ~q.glim),
                  xlb |-> Lim(nx, "lb", ~q.xlim), xub |-> Lim(nx, "ub", ~q.xlim)]
                 @@ Fns(k, "R", q, nx, nu, q.ng, q.nh) @@ Fns(k, "E", q, nx, nu, ngT, nhT))
          /\ IF bad THEN UNCHANGED <<cur, ds>> ELSE cur' = [kind |-> k, nx |-> nx, nu |-> nu, st |-> st, sh |-> q.shared] /\ ds' = {}
Pts(x) == IF R(1..5, x) = 1 /\ cur.st = "vec" THEN Wide ELSE Nums
GEval == \E d \in One(R(ds, 0)), t \in One(R(1..3, 0) = 1 /\ cur.kind \notin {"act", "ctl", "atn", "ctc"}), df \in One(R(1..5, 0) # 1), S \in One(Pts(0)) :
         /\ Log([op |-> "eval", d |-> d, t |-> t, diff |-> df, x |-> Vec(cur.nx, S), u |-> Vec(cur.nu, S), x2 |-> Vec(cur.nx, S), u2 |-> Vec(cur.nu, S)])
         /\ UNCHANGED <<cur, ds>>
Comp == {"first", "second", "both"}
GState == \E n \in One(cur.nx) :
          /\ Log([op |-> "seval", x |-> Vec(n, Nums), y |-> Vec(n, Nums), dx |-> Vec(n, Nums), comp |-> R(Comp, 0), mode |-> R({"set", "add", "sub"}, 0), A |-> Mat(n, n, Coef), B |-> Mat(n, n, Coef),
                  which |-> R({"first", "second"}, 0), C |-> Mat(n, R(1..3, 0), Coef)])
          /\ UNCHANGED <<cur, ds>>
GDist == Log([op |-> "dist", v |-> R({"1/100000", "1/1000000", "1/10000000", "1/1000", "-1", "-1/1000"}, 0)]) /\ UNCHANGED <<cur, ds>>
GQuasi == Log([op |-> "quasi", d |-> R(ds, 0), x |-> Vec(cur.nx, Nums)]) /\ UNCHANGED <<cur, ds>>
GPass == Log([op |-> "pass", d |-> R(ds, 0), x |-> Vec(cur.nx, Nums), u |-> Vec(cur.nu, Nums), p |-> Vec(8, Nums)]) /\ UNCHANGED <<cur, ds>>
Ops == IF cur = <<>> THEN {"new"} ELSE IF cur.kind = "state" THEN {"new", "seval", "seval1", "seval2", "dist"} ELSE IF ds = {} THEN {"data"}
       ELSE {"new", "data", "dist", "eval", "eval1", "eval2", "eval3", "eval4", "eval5"} \cup (IF cur.kind \in {"action", "da"} THEN {"quasi"} ELSE {}) \cup (IF cur.kind \in {"atn", "ctl", "ctc"} THEN {"pass"} ELSE {})
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Ops, 0)) :
            CASE k = "new" -> GNew [] k = "dist" -> GDist [] k = "quasi" -> GQuasi [] k = "pass" -> GPass
              [] k = "data" -> \E d \in One(R(1..3, 0)) : Log([op |-> "data", d |-> d]) /\ ds' = ds \cup {d} /\ UNCHANGED cur
              [] k \in {"seval", "seval1", "seval2"} -> GState
              [] OTHER -> GEval
GSpec == hist = <<>> /\ cur = <<>> /\ ds = {} /\ [][GNext]_<<hist, cur, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
