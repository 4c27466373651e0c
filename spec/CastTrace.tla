------------------------------- MODULE CastTrace ------------------------------
(* Recorded histories: R.in the operation, R.os the description of every slot afterwards, R.ev what every slot evaluates to. *)
EXTENDS Cast, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Slots == {R.os[j].s : j \in 1..Len(R.os)}
Rep(s) == LET r == R.os[CHOOSE j \in 1..Len(R.os) : R.os[j].s = s] IN [prec |-> r.prec, nums |-> r.nums, tags |-> r.tags]
SameAs(what, r, o) ==
  /\ Ck(<<what, "precision">>, r.prec = o.prec)
  /\ Ck(<<what, "properties", {k \in DOMAIN o.tags : k \notin DOMAIN r.tags}, {k \in DOMAIN r.tags : k \notin DOMAIN o.tags}>>, DOMAIN r.tags = DOMAIN o.tags)
  /\ \A k \in DOMAIN o.tags : Ck(<<what, k, r.tags[k], o.tags[k]>>, r.tags[k] = o.tags[k])
  /\ Ck(<<what, "numbers">>, DOMAIN r.nums = DOMAIN o.nums)
  /\ \A k \in DOMAIN o.nums : Ck(<<what, k, r.nums[k], o.nums[k]>>, VEq(r.nums[k], o.nums[k]))
All(os) == (Ck("slots", Slots = DOMAIN os) /\ \A s \in DOMAIN os : SameAs(<<R.op, s>>, Rep(s), os[s])) = TRUE
\* the largest magnitude among results of one kind sets the scale of their comparison
Mag(v) == LET m == VNormInf(v) IN IF RIsNum(m) THEN RAdd("1", m) ELSE "1"
Close(a, b, tol) == Len(a) = Len(b) /\ LET m == Mag(b) IN \A i \in 1..Len(a) : IF RIsNum(a[i]) /\ RIsNum(b[i]) THEN RLe(RAbs(RSub(a[i], b[i])), RMul(tol, m)) ELSE TRUE
TraceInit == objs = [s \in {} |-> 0] /\ l = 1
TBuild == Is("build") /\ objs' = [s \in {"a"} |-> Rep(s)] /\ All(objs') /\ Adv
TCast == Is("cast") /\ Cast(R.in.s, R.in.t) /\ All(objs') /\ Adv
TChange == Is("change") /\ Put(R.in.s, Rep(R.in.s)) /\ All(objs') /\ Adv
\* derivatives taken by finite differences depend on the precision they are computed in
Coarse(o) == \E k \in DOMAIN o.tags : o.tags[k] = "numdiff"
EvOf(s) == R.ev[CHOOSE j \in 1..Len(R.ev) : R.ev[j].s = s]
TEval == /\ Is("eval") /\ UNCHANGED objs
         /\ (\A s \in DOMAIN objs, t \in DOMAIN objs :
               LET a == EvOf(s) b == EvOf(t) o == objs[s] p == objs[t] IN
               IF s # t /\ Alike(o, p)
               THEN IF Same(o, p) THEN Ck(<<"equal components", s, t>>, VEq(a.v, b.v) /\ VEq(a.d, b.d))
                    ELSE Ck(<<"values", s, t>>, Close(a.v, b.v, "1/5000")) /\ Ck(<<"derivatives", s, t>>, Close(a.d, b.d, IF Coarse(o) THEN "1/20" ELSE "1/2000"))
               ELSE TRUE) = TRUE
         /\ All(objs') /\ Adv
TraceNext == TBuild \/ TCast \/ TChange \/ TEval
TraceSpec == TraceInit /\ [][TraceNext]_<<objs, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
