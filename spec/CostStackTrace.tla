-------------------------- MODULE CostStackTrace ----------------------------
EXTENDS CostStack, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ok == R.res = "ok"
\* everything the getters report after the operation
Matches == /\ R.nr = nr' /\ R.nrt = nrt'
           /\ {R.act[i] : i \in 1..Len(R.act)} = act' /\ Len(R.act) = Cardinality(act')
           /\ {R.inact[i] : i \in 1..Len(R.inact)} = inact' /\ Len(R.inact) = Cardinality(inact')
           /\ R.acts = R.act /\ R.inacts = R.inact
           /\ Len(R.items) = Cardinality({n \in Names : items'[n].id # 0})
           /\ \A i \in 1..Len(R.items) : LET q == R.items[i] IN
                 q.n \in Names /\ items'[q.n] = [id |-> q.id, w |-> q.w, act |-> q.a] /\ q.st = q.a
Step == l' = l + 1 /\ Matches
Guarded(g, a) == IF g THEN Ok /\ a ELSE ~Ok /\ UNCHANGED vars
TReset == Is("reset") /\ l' = l + 1 /\ items' = [n \in Names |-> Absent] /\ nr' = 0 /\ nrt' = 0 /\ act' = {} /\ inact' = {} /\ datas' = [d \in {} |-> <<>>]
TAdd == (Is("add") \/ Is("addItem")) /\ Guarded(AddOk(R.i), Add(R.n, R.i, R.w, R.a)) /\ Step
TRemove == Is("remove") /\ Ok /\ Remove(R.n) /\ Step
TToggle == Is("toggle") /\ Ok /\ Toggle(R.n, R.a) /\ Step
TWeight == Is("weight") /\ Ok /\ Weight(R.n, R.w) /\ Step
TData == Is("data") /\ Ok /\ CreateData(R.d) /\ Step
TEval == /\ Is("eval")
         /\ Guarded(EvalOk(R.d) /\ Len(R.x) = NX /\ Len(R.u) = NU,
              /\ R.cost = WCost(R.x, R.u) /\ R.Lx = WLx(R.x, R.u) /\ R.Lu = WLu(R.x, R.u)
              /\ R.Lxx = WLxx(R.x, R.u) /\ R.Lxu = WLxu(R.x, R.u) /\ R.Luu = WLuu(R.x, R.u)
              /\ UNCHANGED vars) /\ Step
TEvalT == /\ Is("evalT")
          /\ Guarded(EvalOk(R.d) /\ Len(R.x) = NX,
              /\ R.cost = WCostT(R.x) /\ R.Lx = WLxT(R.x) /\ R.Lxx = WLxxT(R.x)
              /\ UNCHANGED vars) /\ Step
TraceNext == TReset \/ TAdd \/ TRemove \/ TToggle \/ TWeight \/ TData \/ TEval \/ TEvalT
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
