--------------------------- MODULE ControlsTrace ----------------------------
EXTENDS Controls, Json, IOUtils
VARIABLES m, c, l \* the parametrization, the weights each data object remembers
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/1000000000000"
Put(f, k, v) == [e \in DOMAIN f \cup {k} |-> IF e = k THEN v ELSE f[e]]
TraceInit == m = [k |-> "none", nw |-> 0] /\ c = [d \in {} |-> <<>>] /\ l = 1
Nu == NuOf(m.k, m.nw)
TNew == Is("new") /\ m' = [k |-> R.in.k, nw |-> R.in.nw] /\ c' = [d \in {} |-> <<>>] /\ Ck("dimensions", R.nw = R.in.nw /\ R.nu = NuOf(R.in.k, R.in.nw)) = TRUE /\ Adv
\* the constant parametrization knows its weight from the start
TData == Is("data") /\ c' = Put(c, R.in.d, IF m.k = "zero" THEN <<"1">> ELSE [i \in 1..Blocks(m.k) |-> "0"]) /\ UNCHANGED m /\ Adv
TCalc == /\ Is("calc")
         /\ LET a == R.in ok == Len(a.u) = Nu w == Weights(m.k, a.t) IN
            /\ Ck("accepted exactly when of the right size", R.thrown = ~ok) = TRUE
            /\ c' = IF ok THEN Put(c, a.d, w) ELSE c
            /\ (IF ok THEN Ck("control", VClose(R.w, ControlAt(m.k, m.nw, a.t, a.u), Tol)) /\ (IF a.diff THEN Ck("derivative", MClose(R.dw, Jac(w, m.nw), Tol)) ELSE TRUE) ELSE TRUE) = TRUE
         /\ UNCHANGED m /\ Adv
TParams == /\ Is("params")
           /\ LET a == R.in ok == Len(a.w) = m.nw IN
              /\ Ck("accepted exactly when of the right size", R.thrown = ~ok) = TRUE
              /\ (IF ok THEN /\ Ck("parameters", Len(R.u) = Nu /\ VClose(ControlAt(m.k, m.nw, a.t, R.u), a.w, Tol))
                             /\ Ck("reproduced", VClose(R.back, a.w, Tol)) ELSE TRUE) = TRUE
           /\ UNCHANGED <<m, c>> /\ Adv
TBounds == /\ Is("bounds")
           /\ LET a == R.in ok == Len(a.lb) = m.nw /\ Len(a.ub) = m.nw /\ a.nl = Nu /\ a.nh = Nu IN
              /\ Ck("accepted exactly when of the right size", R.thrown = ~ok) = TRUE
              /\ (IF ok THEN Ck("bounds", VEq(R.ulb, Params(m.k, a.lb)) /\ VEq(R.uub, Params(m.k, a.ub))) ELSE TRUE) = TRUE
           /\ UNCHANGED <<m, c>> /\ Adv
Width(M, n) == \A i \in 1..Len(M) : Len(M[i]) = n
TMul == /\ Is("mul")
        /\ LET a == R.in ok == (Len(a.A) = 0 \/ (Width(a.A, m.nw) /\ Width(a.out, Nu))) w == c[a.d] IN
           IF ok THEN Ck("product", ~R.thrown /\ MClose(R.out, Assign(a.mode, a.out, MulJ(a.A, w, m.nw)), Tol)) = TRUE
                      /\ Ck("returned product", MClose(R.ret, IF a.mode = "sub" THEN MScale("-1", MulJ(a.A, w, m.nw)) ELSE MulJ(a.A, w, m.nw), Tol)) = TRUE
           ELSE Ck("wrong size rejected", R.thrown /\ MEq(R.out, a.out)) = TRUE
        /\ UNCHANGED <<m, c>> /\ Adv
TMulT == /\ Is("mulT")
         /\ LET a == R.in ok == Len(a.A) = m.nw /\ Len(a.out) = Nu w == c[a.d] IN
            IF ok THEN Ck("product", ~R.thrown /\ MClose(R.out, Assign(a.mode, a.out, MulJT(a.A, w, m.nw)), Tol)) = TRUE
                       /\ Ck("returned product", MClose(R.ret, IF a.mode = "sub" THEN MScale("-1", MulJT(a.A, w, m.nw)) ELSE MulJT(a.A, w, m.nw), Tol)) = TRUE
            ELSE Ck("wrong size rejected", R.thrown /\ MEq(R.out, a.out)) = TRUE
         /\ UNCHANGED <<m, c>> /\ Adv
TraceNext == TNew \/ TData \/ TCalc \/ TParams \/ TBounds \/ TMul \/ TMulT
TraceSpec == TraceInit /\ [][TraceNext]_<<m, c, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
