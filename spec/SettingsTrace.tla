---------------------------- MODULE SettingsTrace ----------------------------
(* Recorded histories: R.in the operation, R.os what every object reports afterwards, R.thrown whether it was refused. *)
EXTENDS Settings, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Near(a, b) == IF REq(a, b) THEN TRUE ELSE RIsNum(a) /\ RIsNum(b) /\ RLe(RAbs(RSub(a, b)), RMul(RAbs(b), "1/1000000000000"))
LEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(a[i], b[i])
Same(k, n, a, b) == CASE n \in {"xs", "us"} -> LEq(a, b) [] n \in {"alphas", "lb", "ub", "ulb", "uub", "glb", "gub"} -> VEq(a, b) [] n \in {"ng", "nh", "type", "ng0", "nh0"} -> a = b [] OTHER -> REq(a, b)
Rep(i) == R.os[CHOOSE j \in 1..Len(R.os) : R.os[j].i = i]
Reports(i, o) ==
  LET r == Rep(i) IN
  /\ Ck(<<"kind", i>>, r.k = o.k)
  /\ \A n \in DOMAIN o.v : Ck(<<"setting", i, n>>, n \in {"ng0", "nh0"} \/ Same(o.k, n, r.v[n], o.v[n]))
  /\ (IF o.k = "act" THEN Ck("limits flag", r.v.has = Limited(o.v))
      ELSE IF o.k \in Solvers THEN Ck("older names", REq(r.v.xreg, o.v.preg) /\ REq(r.v.ureg, o.v.preg) /\ (IF o.k \in DDPs THEN REq(r.v.regfactor, o.v.reg_inc) /\ REq(r.v.regmin, o.v.reg_min) /\ REq(r.v.regmax, o.v.reg_max) ELSE TRUE))
      ELSE TRUE)
All(os) == (Ck("objects", {R.os[j].i : j \in 1..Len(R.os)} = DOMAIN os) /\ \A i \in DOMAIN os : Reports(i, os[i])) = TRUE
TraceInit == objs = [i \in {} |-> 0] /\ l = 1
TReset == Is("reset") /\ objs' = [i \in {} |-> 0] /\ Adv
TNew == /\ Is("new") /\ ~R.thrown
        /\ LET a == R.in r == Rep(a.i) d == Initial(a.k, a.dims) IN
           /\ (\A n \in DOMAIN d \ {"xs", "us", "alphas"} : Ck(<<"default", n>>, Near(r.v[n], IF n = "nx" THEN "2" ELSE d[n]))) = TRUE
           /\ Slot(a.i, [k |-> a.k, dims |-> a.dims, v |-> [n \in DOMAIN d |-> IF n \in {"xs", "us", "alphas"} THEN d[n] ELSE r.v[n]]])
        /\ All(objs') /\ Adv
TSet == /\ Is("set")
        /\ LET a == R.in o == objs[a.i] ok == Ok(o.k, a.n, a.v, o.dims) IN
           Ck(<<"accepted exactly when admissible", a.n, a.v>>, R.thrown = ~ok) = TRUE /\ Set(a.i, a.n, a.v)
        /\ All(objs') /\ Adv
\* a solve moves the candidate and the regularization only
TRun == /\ Is("run")
        /\ LET o == objs[R.in.i] r == Rep(R.in.i) IN Slot(R.in.i, [o EXCEPT !.v = [n \in DOMAIN o.v |-> IF n \in Moving THEN r.v[n] ELSE o.v[n]]])
        /\ All(objs') /\ Adv
TCon == Is("con") /\ ~R.thrown /\ Slot(R.in.i, [k |-> "con", dims |-> <<>>, v |-> Con(R.in.ng, R.in.nh)]) /\ All(objs') /\ Adv
TBounds == /\ Is("bounds")
           /\ LET a == R.in o == objs[a.i] ok == BoundsOk(o.v, a.lo, a.up) IN
              /\ Ck("accepted exactly when admissible", R.thrown = ~ok) = TRUE
              /\ IF ok THEN Slot(a.i, [o EXCEPT !.v = Bounded(o.v, a.lo, a.up)]) ELSE UNCHANGED objs
           /\ All(objs') /\ Adv
TFree == Is("free") /\ ~R.thrown /\ Slot(R.in.i, [objs[R.in.i] EXCEPT !.v = Unbounded(objs[R.in.i].v)]) /\ All(objs') /\ Adv
TAct == Is("act") /\ ~R.thrown /\ Slot(R.in.i, [k |-> "act", dims |-> <<>>, v |-> Act(R.in.nu, IF R.in.ng > R.in.ngT THEN R.in.ng ELSE R.in.ngT)]) /\ All(objs') /\ Adv
TLimit == /\ Is("limit")
          /\ LET a == R.in o == objs[a.i] IN Ck("accepted exactly when of the right size", R.thrown = (Len(a.v) # Len(o.v[a.w]))) = TRUE /\ Slot(a.i, [o EXCEPT !.v = Limit(o.v, a.w, a.v)])
          /\ All(objs') /\ Adv
TCopy == Is("copy") /\ ~R.thrown /\ Slot(R.in.j, objs[R.in.i]) /\ All(objs') /\ Adv
\* a model that defines one evaluation is evaluated at the end of the horizon with its neutral control
TEnd == Is("end") /\ UNCHANGED objs /\ Ck("terminal evaluation", ~R.thrown /\ REq(R.cost, VSum(R.in.x)) /\ VEq(R.lx, <<"1", "1">>)) = TRUE /\ All(objs') /\ Adv
TraceNext == TReset \/ TNew \/ TSet \/ TRun \/ TCon \/ TBounds \/ TFree \/ TAct \/ TLimit \/ TCopy \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<objs, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
