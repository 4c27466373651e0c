------------------------------ MODULE SquashGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, cur, ds
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-2", "-1", "0", "1", "1/2", "-1/4", "3", "3/5"}
Ss == {"-20", "-2", "-1", "-1/2", "0", "0", "1/2", "1", "3/2", "4", "30"}
Vec(k, x) == TLCEval([i \in 1..k |-> RandomElement(Nums)])
SVec(k, x) == TLCEval([i \in 1..k |-> RandomElement(Ss)])
Mat(r, c, x) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(Nums)])])
Idx(n, nz, m, x) == TLCEval([j \in 1..m |-> <<RandomElement(1..n), RandomElement(1..nz), RandomElement(1..nz)>>])
Log(op) == hist' = Append(hist, op)
GNew == \E nv \in One(R(1..3, 0)), nu \in One(R(1..3, 0)), m \in One(R(0..3, 0)), xd \in One(R(BOOLEAN, 0)) :
        \E L \in One(Mat(nv, 2 * nv + nu, 0)) :
          /\ Log([op |-> "new", nv |-> nv, nu |-> nu, lb |-> TLCEval([i \in 1..nu |-> R({"-2", "-1", "-1/2", "0"}, 0)]), ub |-> TLCEval([i \in 1..nu |-> R({"1/2", "1", "5/2", "0"}, 0)]),
                  tc |-> Vec(nv, 0), tL |-> IF xd THEN L ELSE [i \in 1..nv |-> [j \in 1..(2 * nv + nu) |-> IF j <= 2 * nv THEN "0" ELSE L[i][j]]],
                  ti |-> IF m = 0 THEN <<>> ELSE Idx(nv, 2 * nv + nu, m, 0), tk |-> Vec(m, 0), set |-> TLCEval([i \in 1..nv |-> R(0..1, 0)])])
          /\ cur' = [nv |-> nv, nu |-> nu] /\ ds' = {}
Same == UNCHANGED <<cur, ds>>
Kinds == IF cur = <<>> THEN {"new"} ELSE IF ds = {} THEN {"data"} ELSE {"new", "data", "smooth", "slim", "sq", "sq2", "act", "act2", "act3", "end", "tt", "cmd"}
GNext ==
  /\ Len(hist) < MaxOps
  /\ \E k \in One(R(Kinds, 0)) : \E d \in One(IF ds = {} THEN 1 ELSE R(ds, 0)), df \in One(R(1..4, 0) # 1) :
     \E x \in One(IF cur = <<>> THEN <<>> ELSE Vec(2 * cur.nv, 0)), s \in One(IF cur = <<>> THEN <<>> ELSE SVec(cur.nu, 0)) :
     CASE k = "new" -> GNew
       [] k = "data" -> \E e \in One(R(1..3, 0)) : Log([op |-> "data", d |-> e]) /\ ds' = ds \cup {e} /\ UNCHANGED cur
       [] k = "smooth" -> Same /\ Log([op |-> "smooth", v |-> R({"0", "1/10", "1/2", "1", "3", "1/100", "-1/2"}, 0)])
       [] k = "slim" -> Same /\ Log([op |-> "slim", lb |-> s, ub |-> SVec(cur.nu, 0)])
       [] k \in {"sq", "sq2"} -> Same /\ Log([op |-> "sq", d |-> d, s |-> s])
       [] k = "end" -> Same /\ Log([op |-> "end", d |-> d, x |-> x])
       [] k = "tt" -> Same /\ Log([op |-> "tt", d |-> d, x |-> x, s |-> s])
       [] k = "cmd" -> Same /\ Log([op |-> "cmd", d |-> d, x |-> x, s |-> IF cur.nu = cur.nv THEN s ELSE SVec(cur.nv, 0)])
       [] OTHER -> Same /\ Log([op |-> "act", d |-> d, x |-> x, s |-> s, diff |-> df])
GSpec == hist = <<>> /\ cur = <<>> /\ ds = {} /\ [][GNext]_<<hist, cur, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
