------------------------------- MODULE CostsGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, cur, ds
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-2", "-1", "0", "1", "1/2", "-1/4", "3", "3/5", "4/5"}
Vec(k, x) == TLCEval([i \in 1..k |-> RandomElement(Nums)])
Mat(r, c, x) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(Nums)])])
Idx(n, nz, m, x) == TLCEval([j \in 1..m |-> <<RandomElement(1..n), RandomElement(1..nz), RandomElement(1..nz)>>])
Log(op) == hist' = Append(hist, op)
AKs == {"quad", "wquad", "norm", "s1", "s2", "exp", "log", "bar", "wbar", "bar2", "wbar2"}
Ak(k) == IF k = "bar2" THEN "bar" ELSE IF k = "wbar2" THEN "wbar" ELSE k
Alphas(k) == IF k \in {"exp", "log"} THEN {"1", "1/2", "1/10", "5"} ELSE {"0", "1", "1", "1/2", "1/10", "5"}
Bnd(n, s, x) == TLCEval([i \in 1..n |-> RandomElement(IF s = "lb" THEN {"-2", "-1", "0", "1/2", "-inf"} ELSE {"1/2", "1", "3", "inf"})])
\* parameters of an activation of n entries; one flaw at most
APar(k, n, bad, x) ==
  LET lb == Bnd(n, "lb", x) ub == Bnd(n, "ub", x) f == R(1..4, x) IN
  TLCEval([ak_ |-> k, alpha |-> IF bad THEN "-1/2" ELSE R(Alphas(k), x), exact |-> R(BOOLEAN, x), w |-> Vec(n, x),
   lb |-> IF bad /\ f = 1 THEN ub \o <<"0">> ELSE IF bad /\ f = 4 THEN [lb EXCEPT ![1] = "2"] ELSE lb, ub |-> IF bad /\ f = 4 THEN [ub EXCEPT ![1] = "3/2"] ELSE ub,
   beta |-> IF bad /\ f = 2 THEN "-1/4" ELSE IF bad /\ f = 3 THEN "5/4" ELSE R({"1", "1", "1/2", "3/4", "0"}, x)])
Base(x) == [ak |-> R(AKs, x), rk |-> R({"poly", "poly2", "poly3", "ctrl", "effort", "acc"}, x), nv |-> R(1..2, x), nu |-> R(1..3, x), na |-> R(1..3, x), nr |-> R(1..3, x), bad |-> R(1..12, x) = 1, bad2 |-> R(1..14, x),
            plain |-> R(1..6, x) = 1, fwd |-> R(BOOLEAN, x), via |-> R({"full", "full2", "ref", "nu", "state"}, x), dq |-> R(BOOLEAN, x), dv |-> R(BOOLEAN, x), du |-> R(BOOLEAN, x), m |-> R(0..3, x)]
GNew ==
  \E b \in One(Base(0)) :
  \E rk \in One(IF b.rk \in {"poly2", "poly3"} THEN "poly" ELSE b.rk) :
  \E via \in One(IF b.via = "full2" THEN "full" ELSE IF rk = "ctrl" /\ b.via = "full" THEN "ref" ELSE b.via) :
  \E nr \in One(CASE rk = "poly" -> b.nr [] rk = "ctrl" -> (IF via = "state" THEN b.nv ELSE b.nu) [] rk = "effort" -> b.na [] OTHER -> b.nv),
     nu \in One(IF rk = "poly" \/ via \in {"full", "nu"} \/ (rk = "ctrl" /\ via = "ref") THEN b.nu ELSE b.nv) :
  \E q \in One(b.dq \/ ~(b.dv \/ b.du)) :
  \E an \in One(IF b.bad2 = 1 THEN nr + 1 ELSE nr), refn \in One(IF b.bad2 = 2 /\ rk = "acc" THEN nr + 1 ELSE nr), flaw \in One(b.bad /\ Ak(b.ak) \notin {"quad", "wquad"}) :
  \E A \in One(APar(Ak(b.ak), an, flaw, 0)) :
  \E ok \in One(~flaw /\ (an = nr \/ b.plain) /\ (refn = nr \/ via \in {"nu", "state"})) :
    /\ Log([op |-> "new", nr |-> an, rn |-> nr, rk_ |-> rk, via |-> via, nv |-> b.nv, nu |-> nu, na |-> b.na, plain |-> b.plain, fwd |-> b.fwd, ref |-> Vec(refn, 0), dq |-> q, dv |-> b.dv, du |-> b.du,
            rc |-> Vec(nr, 0), rL |-> Mat(nr, 2 * b.nv + nu, 0), ri |-> Idx(nr, 2 * b.nv + nu, b.m, 0), rk |-> Vec(b.m, 0)] @@ A)
    /\ IF ok THEN cur' = [nv |-> b.nv, nu |-> nu, nr |-> nr, ak |-> IF b.plain THEN "quad" ELSE Ak(b.ak), rk |-> rk] /\ ds' = {} ELSE UNCHANGED <<cur, ds>>
Same == UNCHANGED <<cur, ds>>
GSet == \E c \in One(R({"alpha", "weights", "bounds", "ref", "ref2"}, 0)), bad \in One(R(1..4, 0) = 1) :
        /\ Same
        /\ CASE c = "alpha" /\ cur.ak \in {"norm", "exp", "log"} -> Log([op |-> "alpha", alpha |-> R(Alphas(cur.ak), 0)])
             [] c = "weights" /\ cur.ak \in {"wquad", "wbar"} -> Log([op |-> "weights", w |-> Vec(IF bad THEN cur.nr + 1 ELSE cur.nr, 0)])
             [] c = "bounds" /\ cur.ak \in {"bar", "wbar"} -> \E A \in One(APar(cur.ak, cur.nr, bad, 0)) : Log([op |-> "bounds", lb |-> A.lb, ub |-> A.ub, beta |-> A.beta])
             [] c \in {"ref", "ref2"} /\ cur.rk # "poly" -> Log([op |-> "ref", ref |-> Vec(IF bad THEN cur.nr + 1 ELSE cur.nr, 0)])
             [] OTHER -> Log([op |-> "alpha", alpha |-> "1"])
GAEval == \E d \in One(R(ds, 0)), b \in One(R(1..12, 0)), z \in One(R(1..8, 0)) :
          /\ Same
          /\ Log([op |-> "aeval", d |-> d, r |-> IF z = 1 THEN TLCEval([i \in 1..cur.nr |-> "0"]) ELSE Vec(IF b = 1 THEN cur.nr + 1 ELSE cur.nr, 0)])
GCEval == \E d \in One(R(ds, 0)), t \in One(R(1..3, 0) = 1), df \in One(R(1..4, 0) # 1) :
          /\ Same
          /\ Log([op |-> "ceval", d |-> d, t |-> t, diff |-> df, x |-> Vec(2 * cur.nv, 0), u |-> Vec(cur.nu, 0), jv |-> Vec(cur.nr, 0), jx |-> Mat(cur.nr, 2 * cur.nv, 0), ju |-> Mat(cur.nr, cur.nu, 0)])
Kinds == IF cur = <<>> THEN {"new"} ELSE IF ds = {} THEN {"data"} ELSE {"new", "new2", "set", "set2", "data", "aeval", "aeval1", "ceval", "ceval1", "ceval2"}
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Kinds, 0)) :
            CASE k \in {"new", "new2"} -> GNew [] k \in {"set", "set2"} -> GSet
              [] k = "data" -> \E d \in One(R(1..3, 0)) : Log([op |-> "data", d |-> d]) /\ ds' = ds \cup {d} /\ UNCHANGED cur
              [] k \in {"aeval", "aeval1"} -> GAEval [] OTHER -> GCEval
GSpec == hist = <<>> /\ cur = <<>> /\ ds = {} /\ [][GNext]_<<hist, cur, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
