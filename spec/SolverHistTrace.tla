--------------------------- MODULE SolverHistTrace ---------------------------
EXTENDS SolverHist, BigRat, TLC, Json, IOUtils
VARIABLES p, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Adv == l' = l + 1
TraceInit == p = [kind |-> ""] /\ l = 1
TSolver == Is("solver") /\ p' = R /\ Adv
\* an edit keeps the horizon length
TEdit == Is("edit") /\ Adv /\ p' = IF R.kind \in {"append", "appenddata"} THEN [p EXCEPT !.nus = Append(Tail(@), R.nu)]
                                   ELSE IF R.at < Len(p.nus) THEN [p EXCEPT !.nus[R.at + 1] = R.nu] ELSE p
TX0 == Is("x0") /\ UNCHANGED p /\ Adv
Loose == "1/1000000"
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Close(a, b) == RIsNum(a) /\ RIsNum(b) => RClose(a, b, Loose)
Same(a, b) ==
  IF ~R.box THEN \A f \in DOMAIN b : (f = "stop" /\ b.iter = 0 /\ ~b.ret) \/ Ck(f, a[f] = b[f])
  ELSE p.lq => /\ \A t \in 1..Len(b.xs) : \A i \in 1..Len(b.xs[t]) : Ck("xs", Close(a.xs[t][i], b.xs[t][i]))
               /\ \A t \in 1..Len(b.us) : \A i \in 1..Len(b.us[t]) : Ck("us", Close(a.us[t][i], b.us[t][i]))
               /\ Ck("cost", Close(a.cost, b.cost)) /\ Ck("feas", a.feas = b.feas)
Ok == IF ~WellFormed(R.xs, R.us, p.nx, p.nus) THEN Ck("rejected", R.used.how = "thrown")
      ELSE IF R.used.how = "aborted" THEN TRUE
      ELSE Ck("accepted", R.used.how = "ret" /\ R.fresh.how = "ret") /\ Same(R.used, R.fresh)
TSolve == Is("solve") /\ Ok = TRUE /\ UNCHANGED p /\ Adv
TraceNext == TSolver \/ TEdit \/ TX0 \/ TSolve
TraceSpec == TraceInit /\ [][TraceNext]_<<p, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
