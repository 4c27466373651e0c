--------------------------- MODULE ShootingTrace ----------------------------
(* Is a recorded history of the real shooting problems one of Shooting's?   *)
EXTENDS Shooting, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

TraceInit == Init /\ l = 1
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ok == R.res = "ok"
Logged(s) == LET k == {i \in 1..Len(R.probs) : R.probs[i].p = s} IN
             IF k = {} THEN None ELSE R.probs[CHOOSE i \in k : TRUE]
\* what the getters of each problem returned after the operation
Matches == \A s \in Slots :
   LET e == probs'[s]  g == Logged(s) IN
   IF ~IsProblem(e) THEN g = None
   ELSE /\ g.T = e.T /\ g.x0 = e.x0 /\ g.nx = e.nx /\ g.ndx = e.ndx
        /\ g.rm = e.rm /\ g.rd = e.rd /\ g.tm = e.tm /\ g.td = e.td
        /\ g.ro = [i \in 1..e.T |-> owner'[e.rd[i]]] /\ g.to = owner'[e.td]
Step == l' = l + 1 /\ Matches
\* an operation is accepted exactly when its guard holds; a rejected one changes nothing
Guarded(guard, action) == IF guard THEN Ok /\ action ELSE ~Ok /\ UNCHANGED vars
NoCalls == R.calls = <<>>

TReset == Is("reset") /\ probs' = [s \in Slots |-> None] /\ owner' = [d \in {x \in Known : x > 1000} |-> owner[d]] /\ l' = l + 1
TData == Is("data") /\ NewData(R.m, R.d) /\ Step
TCreate == Is("create") /\ Guarded(CreateOk(R.ms, R.tm, R.x0),
              LET g == Logged(R.p) IN g # None /\ Create(R.p, R.ms, R.tm, R.x0, g.rd, g.td)) /\ Step
TCreateWith == Is("createWith") /\ Guarded(CreateWithOk(R.ms, R.tm, R.x0, R.ds, R.td),
              CreateWith(R.p, R.ms, R.tm, R.x0, R.ds, R.td)) /\ Step
TAppend == Is("append") /\ Guarded(ModelOk(R.p, R.m), LET g == Logged(R.p) IN g.rd # <<>> /\ AppendModel(R.p, R.m, g.rd[Len(g.rd)])) /\ Step
TAppendData == Is("appendData") /\ Guarded(AppendDataOk(R.p, R.m, R.d), AppendData(R.p, R.m, R.d)) /\ Step
TUpdateModel == Is("updateModel") /\ Guarded(UpdateModelOk(R.p, R.i, R.m),
              LET g == Logged(R.p) IN Len(g.rd) = probs[R.p].T /\ UpdateModel(R.p, R.i, R.m, IF R.i = probs[R.p].T THEN g.td ELSE g.rd[R.i + 1])) /\ Step
TUpdateNode == Is("updateNode") /\ Guarded(UpdateNodeOk(R.p, R.i, R.m, R.d), UpdateNode(R.p, R.i, R.m, R.d)) /\ Step
TSetRunning == Is("setRunning") /\ Guarded(SetRunningOk(R.p, R.ms), SetRunning(R.p, R.ms, Logged(R.p).rd)) /\ Step
TSetTerminal == Is("setTerminal") /\ Guarded(ModelOk(R.p, R.m), SetTerminal(R.p, R.m, Logged(R.p).td)) /\ Step
TSetX0 == Is("setX0") /\ Guarded(SetX0Ok(R.p, R.x0), SetX0(R.p, R.x0)) /\ Step
TIsUpdated == Is("isUpdated") /\ Ok /\ IsUpdated(R.p, R.ret) /\ Step
TCopy == Is("copy") /\ Ok /\ Copy(R.p, R.q) /\ Step
TThreads == Is("threads") /\ Ok /\ UNCHANGED vars /\ Step

TEval == /\ \/ Is("calc") \/ Is("diff")
         /\ Guarded(LengthsOk(R.p, R.xs, R.us),
               /\ SameBag(R.calls, EvalCalls(R.p, R.op, R.xs, R.us)) /\ ~R.overlap
               /\ R.ret = TotalCost(R.p, R.xs, R.us)
               /\ UNCHANGED vars)
         /\ (~Ok => NoCalls)
         /\ Step
TRollout == /\ \/ Is("rollout") \/ Is("rolloutUs")
            /\ Guarded(Len(R.us) = probs[R.p].T /\ (R.op = "rolloutUs" \/ R.n = probs[R.p].T + 1),
                  R.ret = Rollout(R.p, R.us) /\ SameBag(R.calls, EvalCalls(R.p, "calc", R.ret, R.us)) /\ UNCHANGED vars)
            /\ (~Ok => NoCalls)
            /\ Step
TQuasi == /\ \/ Is("quasi") \/ Is("quasiXs")
          /\ Guarded(Len(R.xs) = probs[R.p].T /\ (R.op = "quasiXs" \/ R.n = probs[R.p].T),
                R.ret = QuasiStatic(R.p, R.xs) /\ SameBag(R.calls, QuasiCalls(R.p, R.xs)) /\ ~R.overlap /\ UNCHANGED vars)
          /\ (~Ok => NoCalls)
          /\ Step

TraceNext == \/ TReset \/ TData \/ TCreate \/ TCreateWith \/ TAppend \/ TAppendData \/ TUpdateModel \/ TUpdateNode \/ TSetRunning
             \/ TSetTerminal \/ TSetX0 \/ TIsUpdated \/ TCopy \/ TThreads \/ TEval \/ TRollout \/ TQuasi
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

\* reached the end of the trace?  (the trace is deterministic: one state per line)
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
