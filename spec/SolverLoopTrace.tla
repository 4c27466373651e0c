-------------------------- MODULE SolverLoopTrace ---------------------------
EXTENDS SolverLoop, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
NoKind == [kind |-> "none", alphas |-> <<"1">>, thA |-> "1", thNeg |-> "0", thGrad |-> "0", sdec |-> "1", sinc |-> "1",
   inc |-> "2", dec |-> "2", rmin |-> "1", rmax |-> "4", thStop |-> "1", rho |-> "1/2", thFeas |-> "0", zu |-> TRUE, ncb |-> 0]
TraceInit == s = New(NoKind) /\ l = 1
\* equal up to rounding, relative to the size of the number
Near(a, b) == RIsNum(a) /\ RLe(RAbs(RSub(a, b)), RMul("1/1000000000000", RAbs(b)))
\* what the solver shows at a call
Shows(t) == /\ R.iter = t.iter /\ Near(R.preg, t.preg) /\ Near(R.dreg, t.dreg) /\ R.feas = t.feas /\ REq(R.cost, t.cost)
            /\ (Intro(t.k) => REq(R.hfeas, t.hfeas)) /\ REq(R.cur, ToString(t.cur)) /\ REq(R.curu, ToString(t.cur))
ShowsAll(t) == /\ Shows(t) /\ REq(R.alpha, t.alpha) /\ REq(R.dV, t.dV) /\ REq(R.dVexp, t.dVexp) /\ REq(R.stop, t.stop)
               /\ REq(R.d0, t.d0) /\ REq(R.d1, t.d1)
               /\ (Intro(t.k) => REq(R.dPhi, t.dPhi) /\ REq(R.dPhiexp, t.dPhiexp) /\ REq(R.dfeas, t.dfeas) /\ REq(R.merit, t.merit) /\ REq(R.ups, t.ups))
Adv == l' = l + 1
TNew == Is("new") /\ s' = New(R.k) /\ Adv
TSolve == Is("solve") /\ s.pc = "idle" /\ s' = Solve(s, s.next, R.max, R.feas, R.feas, R.reg) /\ Adv
TDir == /\ Is("dir") /\ s.pc = "dir" /\ Shows(s) /\ R.recalc = s.recalc
        /\ s' = IF R.ok THEN DirOk(s, R.e0, R.e1, R.sv, R.c0, R.h0) ELSE DirFail(s)
        /\ Adv
TTry == /\ Is("try") /\ s.pc = "try" /\ Shows(s) /\ REq(R.a, s.k.alphas[s.ai])
        /\ s' = IF R.ok THEN TryOk(s, R.dv, R.e0, R.e1, R.h) ELSE TryFail(s)
        /\ Adv
TCb == Is("cb") /\ s.pc = "cb" /\ R.i = s.cb /\ ShowsAll(s) /\ s' = Callback(s) /\ Adv
TRet == Is("ret") /\ s.pc = "ret" /\ R.ret = s.ret /\ ShowsAll(s) /\ s' = [s EXCEPT !.pc = "idle"] /\ Adv
TraceNext == TNew \/ TSolve \/ TDir \/ TTry \/ TCb \/ TRet
TraceSpec == TraceInit /\ [][TraceNext]_<<s, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
