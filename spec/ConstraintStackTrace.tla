----------------------- MODULE ConstraintStackTrace -------------------------
EXTENDS ConstraintStack, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ok == R.res = "ok"
Matches == /\ R.ng = ng' /\ R.nh = nh' /\ R.ngT = ngT' /\ R.nhT = nhT' /\ R.nlb = ng' /\ R.nub = ng'
           /\ {R.act[i] : i \in 1..Len(R.act)} = act' /\ {R.inact[i] : i \in 1..Len(R.inact)} = inact'
           /\ Len(R.items) = Cardinality({n \in Names : items'[n].id # 0})
           /\ \A i \in 1..Len(R.items) : LET q == R.items[i] IN
                 q.n \in Names /\ items'[q.n].id = q.id /\ items'[q.n].act = q.a /\ q.st = q.a
Step == l' = l + 1 /\ Matches
Guarded(g, a) == IF g THEN Ok /\ a ELSE ~Ok /\ UNCHANGED vars
TReset == /\ Is("reset") /\ l' = l + 1 /\ items' = [n \in Names |-> Absent] /\ ng' = 0 /\ nh' = 0 /\ ngT' = 0 /\ nhT' = 0
          /\ act' = {} /\ inact' = {} /\ datas' = [d \in {} |-> <<>>]
TAdd == Is("add") /\ Guarded(AddOk(R.i), Add(R.n, R.i, R.a)) /\ Step
TRemove == Is("remove") /\ Ok /\ Remove(R.n) /\ Step
TToggle == Is("toggle") /\ Ok /\ Toggle(R.n, R.a) /\ Step
TBounds == Is("bounds") /\ Ok /\ Bounds(R.n, R.s) /\ Step
TData == Is("data") /\ Ok /\ CreateData(R.d) /\ Step
TEval == Is("eval") /\ Guarded(EvalOk(R.d) /\ Len(R.x) = NX /\ Len(R.u) = NU, EvalMatches(R, R.x, R.u) /\ UNCHANGED vars) /\ Step
TEvalT == Is("evalT") /\ Guarded(EvalOk(R.d) /\ Len(R.x) = NX, EvalTMatches(R, R.x) /\ UNCHANGED vars) /\ Step
TraceNext == TReset \/ TAdd \/ TRemove \/ TToggle \/ TBounds \/ TData \/ TEval \/ TEvalT
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
