----------------------------- MODULE RestTrace ------------------------------
EXTENDS Rest, Json, IOUtils
VARIABLES m, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
One(v) == {TLCEval(v)}
Tol == "1/10000000"
TraceInit == m = [k |-> "none"] /\ l = 1
TNew == Is("new") /\ m' = R.in /\ Ck("constructed", ~R.thrown /\ R.nu = NuAll(R.in)) = TRUE /\ Adv
TOther == (Is("data") \/ Is("use")) /\ Ck("evaluates", ~R.thrown) = TRUE /\ UNCHANGED m /\ Adv
THold == /\ Is("hold")
         /\ LET a == R.in ok == Len(a.x) = m.nx /\ Len(a.u) = NuAll(m) IN
            IF ~ok THEN Ck("wrong size rejected", R.thrown /\ VEq(R.u, a.u)) = TRUE
            ELSE \E z \in One(Hold(m, a.x, IF a.ret THEN VZero(Len(a.u)) ELSE a.u, a.n, a.tol)) :
                 Ck("solves", ~R.thrown /\ Len(R.u) = NuAll(m)) = TRUE /\ (z.ok => Ck("control that holds the state", VClose(R.u, z.u, Tol))) = TRUE
         /\ UNCHANGED m /\ Adv
\* without a control, a model that does not say otherwise is evaluated with all its inputs zero
TStill == /\ Is("still")
          /\ LET u == VZero(m.nw) x == R.in.x IN
             Ck("evaluation without control", ~R.thrown /\ VClose(R.f, Motion(m, x, u), Tol) /\ MClose(R.fu, Slope(m, x, u), Tol)) /\ Ck("residual without control", VClose(R.r, Motion(m, x, u), Tol) /\ MClose(R.ru, Slope(m, x, u), Tol)) = TRUE
          /\ UNCHANGED m /\ Adv
TraceNext == TNew \/ TOther \/ THold \/ TStill
TraceSpec == TraceInit /\ [][TraceNext]_<<m, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
