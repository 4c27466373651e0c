----------------------------- MODULE StateTrace -----------------------------
EXTENDS StateSpace, Json, IOUtils
VARIABLES n, lim, l \* size and limits of the state
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/10000000000000"
Const(k, v) == [i \in 1..k |-> v]
Sq(M) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = n
TraceInit == n = 0 /\ lim = [lb |-> <<>>, ub |-> <<>>] /\ l = 1
TNew == /\ Is("new") /\ n' = R.in.n /\ lim' = [lb |-> Const(R.in.n, "-inf"), ub |-> Const(R.in.n, "inf")]
        /\ Ck("dimensions", R.nx = R.in.n /\ R.ndx = R.in.n /\ VEq(R.zero, ZeroPoint(R.in.n)) /\ Len(R.rand) = R.in.n) = TRUE /\ Adv
Keep == UNCHANGED <<n, lim>> /\ Adv
TDiff == /\ Is("diff")
         /\ LET a == R.in ok == Len(a.x0) = n /\ Len(a.x1) = n /\ a.no = n IN
            (IF ok THEN Ck("difference", ~R.thrown /\ VClose(R.out, Difference(a.x0, a.x1), Tol)) /\ Ck("reaches the point", VClose(R.back, a.x1, Tol)) /\ Ck("returned", VEq(R.ret, R.out))
             ELSE Ck("wrong size rejected", R.thrown)) = TRUE
         /\ Keep
TMove == /\ Is("move")
         /\ LET a == R.in ok == Len(a.x) = n /\ Len(a.dx) = n /\ a.no = n IN
            (IF ok THEN Ck("moved point", ~R.thrown /\ VClose(R.out, Move(a.x, a.dx), Tol)) /\ Ck("displacement", VClose(R.back, a.dx, "1/1000000000")) /\ Ck("returned", VEq(R.ret, R.out))
             ELSE Ck("wrong size rejected", R.thrown)) = TRUE
         /\ Keep
Sel(w, i) == w = "both" \/ w = i
TJ == /\ Is("jdiff") \/ Is("jmove")
      /\ LET a == R.in J == IF R.op = "jdiff" THEN JDiff(n) ELSE JMove(n) mode == IF R.op = "jdiff" THEN "set" ELSE a.mode
             ok == (Sel(a.w, "first") => Sq(a.a)) /\ (Sel(a.w, "second") => Sq(a.b)) IN
         (IF ok THEN /\ Ck("first Jacobian", ~R.thrown /\ MClose(R.a, IF Sel(a.w, "first") THEN Acc(mode, a.a, J.first) ELSE a.a, Tol))
                     /\ Ck("second Jacobian", MClose(R.b, IF Sel(a.w, "second") THEN Acc(mode, a.b, J.second) ELSE a.b, Tol))
          ELSE Ck("wrong size rejected", R.thrown)) = TRUE
      /\ Keep
TTrans == /\ Is("trans")
          /\ (IF R.in.w = "both" THEN Ck("both rejected", R.thrown) ELSE Ck("transported", ~R.thrown /\ MClose(R.a, MMul((IF R.in.w = "first" THEN JMove(n).first ELSE JMove(n).second), R.in.a), Tol))) = TRUE
          /\ Keep
Picked(J, w) == IF w = "both" THEN <<J.first, J.second>> ELSE IF w = "first" THEN <<J.first>> ELSE <<J.second>>
SameList(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : MEq(s[i], t[i])
TJs == Is("js") /\ Ck("returned Jacobians", SameList(R.jd, Picked(JDiff(n), R.in.w)) /\ SameList(R.jm, Picked(JMove(n), R.in.w))) = TRUE /\ Keep
Fin(v) == \E i \in 1..Len(v) : RIsNum(v[i])
SameNum(a, b) == IF a = "nan" THEN b = "nan" ELSE b # "nan" /\ REq(a, b)
Same(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : SameNum(v[i], w[i])
TLimit == /\ Is("limit")
          /\ LET a == R.in ok == Len(a.v) = n IN
             /\ Ck("accepted exactly when of the right size", R.thrown = ~ok) = TRUE
             /\ lim' = IF ~ok THEN lim ELSE IF a.up THEN [lim EXCEPT !.ub = a.v] ELSE [lim EXCEPT !.lb = a.v]
          /\ Ck("limits", Same(R.lb, lim'.lb) /\ Same(R.ub, lim'.ub) /\ R.has = (Fin(lim'.lb) \/ Fin(lim'.ub))) = TRUE
          /\ UNCHANGED n /\ Adv
TraceNext == TNew \/ TDiff \/ TMove \/ TJ \/ TTrans \/ TJs \/ TLimit
TraceSpec == TraceInit /\ [][TraceNext]_<<n, lim, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
