----------------------------- MODULE SquashTrace -----------------------------
(* Recorded histories of the real squashing and squashed actuation: R.in the operation, R.m what the models report, R.o the result in the data object used, R.n in a new one. *)
EXTENDS Squash, Json, IOUtils
VARIABLES A, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Claims(p) == IOEnv.PROP = p
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/10000000000"
VNear(a, b) == VClose(a, b, "1/1000000000000")
Reports == (IF A' = <<>> THEN ~R.some
            ELSE /\ Ck("dimensions", R.some /\ R.m.ns = Len(A'.Q.lb) /\ R.m.nu = Len(A'.Q.lb))
                 /\ Ck("smoothing", RClose(R.m.smooth, A'.Q.smooth, "1/1000000000000") /\ VNear(R.m.d, Width(A'.Q)))
                 /\ Ck("input bounds", VEq(R.m.slb, A'.slb) /\ VEq(R.m.sub, A'.sub))) = TRUE
TraceInit == A = <<>> /\ l = 1
TNew == Is("new") /\ A' = (LET a == R.in IN [Q |-> [lb |-> a.lb, ub |-> a.ub, smooth |-> "1/10"], slb |-> a.lb, sub |-> a.ub, P |-> [c |-> a.tc, L |-> a.tL, i |-> a.ti, k |-> a.tk], set |-> a.set]) /\ ~R.thrown /\ Reports /\ Adv
\* a new smoothing starts from the bounds of the map
TSmooth == Is("smooth") /\ LET ok == ~RLt(R.in.v, "0") IN Ck("smoothing accepted exactly when not negative", R.thrown = ~ok) = TRUE /\ A' = (IF ok THEN [A EXCEPT !.Q.smooth = R.in.v, !.slb = A.Q.lb, !.sub = A.Q.ub] ELSE A) /\ Reports /\ Adv
TSLim == Is("slim") /\ ~R.thrown /\ A' = [A EXCEPT !.slb = R.in.lb, !.sub = R.in.ub] /\ Reports /\ Adv
TData == Is("data") /\ ~R.thrown /\ UNCHANGED A /\ Reports /\ Adv
New == Claims("C15")
SameAsNew == Ck("new data differs", R.o = R.n)
\* the pseudo-inverse of a matrix that is not a number is anything
SameUnlessNaN == IF "mt" \in DOMAIN R.o /\ "mt" \in DOMAIN R.n THEN (IF MIsNum(R.o.mt) /\ MIsNum(R.n.mt) THEN SameAsNew ELSE TRUE) ELSE SameAsNew
Within(q, u) == \A i \in 1..Len(u) : RLe(RSub(q.lb[i], "1/1000000000000"), u[i]) /\ RLe(u[i], RAdd(q.ub[i], "1/1000000000000"))
TSq == /\ Is("sq") /\ UNCHANGED A
       /\ (IF New THEN SameAsNew
           ELSE LET s == R.in.s IN
                /\ Ck("no error", ~R.thrown) /\ Ck("inside the bounds", Within(A.Q, R.o.u)) /\ Ck("value", VClose(R.o.u, SValue(A.Q, s), Tol))
                /\ Ck("derivative", IF SSmooth(A.Q, s) THEN MClose(R.o.du, Diag(SSlope(A.Q, s)), Tol) ELSE TRUE)) = TRUE
       /\ Reports /\ Adv
TAct == /\ Is("act") /\ UNCHANGED A
        /\ (IF New THEN SameAsNew
            ELSE LET x == R.in.x s == R.in.s IN
                 /\ Ck("no error", ~R.thrown) /\ Ck("generalized torques", VClose(R.o.tau, TauOf(A, x, s), Tol)) /\ Ck("actuated joints", R.o.set = A.set)
                 /\ (IF R.in.diff /\ SSmooth(A.Q, s) THEN LET J == JacOf(A, x, s) IN Ck("state derivative", MClose(R.o.dx, J.x, Tol)) /\ Ck("input derivative", MClose(R.o.du, J.u, Tol)) ELSE TRUE)) = TRUE
        /\ Reports /\ Adv
\* at the end of the horizon an actuation does nothing
TEnd == Is("end") /\ UNCHANGED A /\ Ck("unchanged", R.o = R.before /\ ~R.thrown) = TRUE /\ Reports /\ Adv
Full(J) == IF Len(J) >= Len(J[1]) THEN MNonSingular(MMul(MT(J), J)) ELSE MNonSingular(MMul(J, MT(J)))
TTt == /\ Is("tt") /\ UNCHANGED A
       /\ (IF New THEN SameUnlessNaN
           ELSE LET x == R.in.x s == R.in.s J == JacOf(A, x, s) I == PJac(A.P, x, SValue(A.Q, s)) IN
                /\ Ck("no error", ~R.thrown)
                /\ Ck("torque transform", IF SSmooth(A.Q, s) /\ Full(I.u) /\ (\A i \in 1..Len(s) : RLt("1/100", SSlope(A.Q, s)[i])) THEN Pseudo(R.o.mt, J.u, "1/100000") ELSE TRUE)) = TRUE
       /\ Reports /\ Adv
TCmd == /\ Is("cmd") /\ UNCHANGED A
        /\ (IF New THEN SameUnlessNaN
            ELSE LET ok == Len(A.Q.lb) = Len(A.set) IN
                 /\ Ck("commands need as many inputs as joints", R.thrown = ~ok)
                 /\ Ck("commands", IF ok /\ MIsNum(R.o.mt) THEN VClose(R.o.u, MV(R.o.mt, R.in.s), "1/100000000") ELSE TRUE)) = TRUE
        /\ Reports /\ Adv
TraceNext == TNew \/ TSmooth \/ TSLim \/ TData \/ TSq \/ TAct \/ TEnd \/ TTt \/ TCmd
TraceSpec == TraceInit /\ [][TraceNext]_<<A, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
