---------------------------- MODULE SettingsGen ------------------------------
(* Histories of constructions, accepted and rejected changes, runs, copies.  *)
EXTENDS Settings, Json
CONSTANTS MaxOps, Slots
VARIABLE hist
R(S, x) == RandomElement(S)
One(v) == {TLCEval(v)}
Log(op) == hist' = Append(hist, op)
Nums == {"-1", "0", "1/2", "1", "2", "1/4", "1/1024", "1/1048576", "100", "-1/1048576", "3/2", "1048577/1048576", "inf", "-inf", "nan"}
Some(n, S, x) == TLCEval([i \in 1..n |-> RandomElement(S)])
GNew(x) ==
  \E i \in One(R(Slots, x)), k \in One(R({"ddp", "fddp", "boxddp", "boxfddp", "intro", "kkt", "ipopt", "qp", "con", "con2", "act", "act2"}, x)), t \in One(R(1..3, x)) :
    IF k \in {"con", "con2"}
    THEN \E ng \in One(R(0..2, x)), nh \in One(R(0..2, x)), via \in One(R({"res", "nu", "dims"}, x)) : Log([op |-> "con", i |-> i, ng |-> ng, nh |-> nh, via |-> via]) /\ Slot(i, [k |-> "con", dims |-> <<>>, v |-> Con(ng, nh)])
    ELSE IF k \in {"act", "act2"}
    THEN \E nu \in One(R(0..2, x)), ng \in One(R(0..2, x)), ngT \in One(R(0..2, x)) : LET m == IF ng > ngT THEN ng ELSE ngT IN Log([op |-> "act", i |-> i, nu |-> nu, ng |-> ng, ngT |-> ngT, dif |-> R(BOOLEAN, x)]) /\ Slot(i, [k |-> "act", dims |-> <<>>, v |-> Act(nu, m)])
    ELSE \E d \in One([j \in 1..t |-> IF k \in {"kkt", "boxddp", "boxfddp"} THEN 1 ELSE 1 + ((j + t) % 2)]) :
         /\ Log([op |-> "new", i |-> i, k |-> k, dims |-> IF k = "qp" THEN <<>> ELSE d])
         /\ Slot(i, [k |-> k, dims |-> IF k = "qp" THEN <<>> ELSE d, v |-> Initial(k, d)])
Fill(l, x) == TLCEval([j \in 1..Len(l) |-> Some(l[j], {"1", "-1/2", "0", "3"}, x)])
GSetAt(i, n, x) ==
  LET o == objs[i]
      bad == TLCEval([z |-> RandomElement(1..6)]).z
      dims(d) == TLCEval([j \in 1..(IF bad = 1 THEN Len(d) + 1 ELSE IF bad = 2 THEN Len(d) - 1 ELSE Len(d)) |-> IF j > Len(d) THEN 1 ELSE IF bad = j + 2 THEN d[j] + 1 ELSE d[j]])
      alist(m, c) == LET a == [j \in 1..c |-> RDiv("1", ToString((2 * (1 + (m % 2))) ^ (j - 1)))] IN
                     TLCEval(IF m = 1 THEN Some(c - 1, Nums, x) ELSE IF m = 2 THEN [a EXCEPT ![RandomElement(1..c)] = RandomElement(Nums)] ELSE a)
  IN \E v \in One(IF n = "alphas" THEN alist(R(1..5, x), R(1..5, x))
                  ELSE IF n = "xs" THEN Fill(dims([j \in 1..(Len(o.dims) + 1) |-> 2]), x)
                  ELSE IF n = "us" THEN Fill(dims(o.dims), x)
                  ELSE IF n \in {"feasnorm", "zero_upsilon"} THEN R({"0", "1"}, x)
                  ELSE IF n = "eq" THEN R({"0", "1", "2"}, x)
                  ELSE IF n = "nx" THEN R({"1", "2", "3"}, x)
                  ELSE IF n = "maxiter" THEN R({"0", "1", "50"}, x)
                  ELSE IF n = "th_feas" THEN R({"0", "1/2", "1/1024", "3"}, x)
                  ELSE R(Nums, x)) :
       Log([op |-> "set", i |-> i, n |-> n, v |-> v]) /\ Set(i, n, v)
Changeable == {i \in DOMAIN objs : objs[i].k \notin {"con", "act"}}
GSet(x) == \E i \in One(R(Changeable, x)) : \E n \in One(R(Given(objs[i].k), x)) : GSetAt(i, n, x)
GRun(x) == \E i \in One(R(Changeable, x)) : Log([op |-> "run", i |-> i, n |-> R(1..3, x)]) /\ UNCHANGED objs
Cons == {i \in DOMAIN objs : objs[i].k = "con"}
Bnds == {"-inf", "inf", "nan", "0", "1", "-1", "1/2", "2", Huge, "-" \o Huge}
GBounds(x) ==
  \E i \in One(R(Cons, x)), m \in One(R(1..6, x)), w \in One(R(1..8, x)), p \in One(R(1..2, x)), b \in One(R(Bnds, x)), free \in One(R(1..4, x) = 1) :
    LET s == objs[i].v
        lo0 == TLCEval([j \in 1..s.ng0 |-> RandomElement({"-inf", "-1", "0", "-2", "-" \o Huge})])
        up0 == TLCEval([j \in 1..s.ng0 |-> RandomElement({"inf", "1", "2", Huge})]) IN
    \E lo1 \in One(lo0), up1 \in One(up0) :
    \E lo \in One(IF m = 1 THEN Append(lo1, "0") ELSE IF w <= 2 /\ p <= s.ng0 THEN [lo1 EXCEPT ![p] = b] ELSE lo1) :
    \E up \in One(IF m = 2 THEN Append(up1, "0") ELSE IF m = 3 /\ s.ng0 > 0 THEN Tail(up1) ELSE IF w \in {3, 4} /\ p <= s.ng0 THEN [up1 EXCEPT ![p] = b] ELSE IF w = 5 THEN lo ELSE up1) :
      IF free THEN Log([op |-> "free", i |-> i]) /\ Slot(i, [objs[i] EXCEPT !.v = Unbounded(s)])
      ELSE Log([op |-> "bounds", i |-> i, lo |-> lo, up |-> up]) /\ (IF BoundsOk(s, lo, up) THEN Slot(i, [objs[i] EXCEPT !.v = Bounded(s, lo, up)]) ELSE UNCHANGED objs)
Acts == {i \in DOMAIN objs : objs[i].k = "act"}
GLimit(x) ==
  \E i \in One(R(Acts, x)), w \in One(R({"ulb", "uub", "glb", "gub"}, x)), m \in One(R(1..6, x)), none \in One(R(1..2, x) = 1) :
    LET s == objs[i].v Inf == IF w \in {"ulb", "glb"} THEN "-inf" ELSE "inf"
        n == IF m = 1 THEN Len(s[w]) + 1 ELSE IF m = 2 /\ Len(s[w]) > 0 THEN Len(s[w]) - 1 ELSE Len(s[w]) IN
    \E v \in One([j \in 1..n |-> IF none THEN Inf ELSE RandomElement({"-2", "1", "1/2", Inf, Inf})]) : Log([op |-> "limit", i |-> i, w |-> w, v |-> v]) /\ Slot(i, [objs[i] EXCEPT !.v = Limit(s, w, v)])
GCopy(x) == \E i \in One(R(Acts, x)), j \in One(R(Slots, x)) : Log([op |-> "copy", i |-> i, j |-> j]) /\ Slot(j, objs[i])
GEnd(x) == \E i \in One(R(Acts, x)) : Log([op |-> "end", i |-> i, x |-> Some(2, {"1", "-1/2", "3"}, x)]) /\ UNCHANGED objs
GInit == objs = [i \in {} |-> 0] /\ hist = <<[op |-> "reset"]>>
Kinds == {"new"} \cup (IF Changeable # {} THEN {"set", "set2", "set3", "set4", "set5", "set6", "run"} ELSE {})
         \cup (IF Cons # {} THEN {"bounds"} ELSE {}) \cup (IF Acts # {} THEN {"limit", "limit2", "limit3", "limit4", "copy", "end"} ELSE {})
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in {RandomElement(Kinds)} :
            CASE k = "new" -> GNew(0) [] k = "run" -> GRun(0) [] k = "bounds" -> GBounds(0) [] k \in {"limit", "limit2", "limit3", "limit4"} -> GLimit(0) [] k = "copy" -> GCopy(0) [] k = "end" -> GEnd(0) [] OTHER -> GSet(0)
GSpec == GInit /\ [][GNext]_<<objs, hist>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
