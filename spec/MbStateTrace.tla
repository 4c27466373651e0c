----------------------------- MODULE MbStateTrace ----------------------------
EXTENDS MbState, Json, IOUtils
VARIABLES S, A, l \* the state's robot and limits, the current actuation (<<>>: none)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/1000000000000"
Tol9 == "1/1000000000"
SameNum(a, b) == IF RIsNum(b) THEN RIsNum(a) /\ RClose(a, b, Tol) ELSE a = b
Same(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : SameNum(v[i], w[i])
Fin(v) == \E i \in 1..Len(v) : RIsNum(v[i])
Ks == S.rb.jk
Nv == SNv(Ks)
Nx == SNq(Ks) + Nv
Sized(o, s) == /\ Ck("sizes", o.nq = SNq(s.rb.jk) /\ o.nv = SNv(s.rb.jk) /\ o.nx = o.nq + o.nv /\ o.ndx = 2 * o.nv)
               /\ Ck("zero", VClose(o.zero, Neutral(s.rb.jk) \o VZero(o.nv), Tol))
Limits(o, s) == Ck("limits", Same(o.lb, s.lb) /\ Same(o.ub, s.ub)) /\ Ck("has limits", o.has = (Fin(s.lb) \/ Fin(s.ub)))
Nr(rb) == IF rb.root THEN NvOf(rb.jk[1]) ELSE 0
Ths(a) == [i \in 1..Len(a.tR) |-> [R |-> a.tR[i], t |-> a.tt[i], c |-> a.tc[i], cw |-> a.tw[i] = 1]]
Map(s, a) == ActMap(a, SNv(s.rb.jk), Nr(s.rb))
NuOf(s, a) == LET n == SNv(s.rb.jk) - Nr(s.rb) IN CASE a.k = "full" -> SNv(s.rb.jk) [] a.k = "float" -> n [] OTHER -> n + Len(a.th)
Report ==
  (IF A' = <<>> THEN Ck("no actuation", ~R.some)
   ELSE /\ Ck("actuation", R.some) /\ Ck("inputs", R.m.nu = NuOf(S', A'))
        /\ (IF A'.k # "thr" THEN TRUE
            ELSE LET W == Map(S', A') IN
                 /\ Ck("thrusters", R.m.nt = Len(A'.th) /\ Len(R.m.list) = Len(A'.th) /\ \A i \in 1..Len(A'.th) : VClose(R.m.list[i].p, A'.th[i].t, Tol) /\ RClose(R.m.list[i].c, A'.th[i].c, Tol) /\ (R.m.list[i].w = 1) = A'.th[i].cw)
                 /\ Ck("thrust map", MClose(R.m.W, W, Tol))
                 /\ Ck("selection", MClose(MMul(R.m.S, W), W, Tol9) /\ MClose(MMul(R.m.S, R.m.S), R.m.S, Tol9) /\ MClose(MT(R.m.S), R.m.S, Tol9)))) = TRUE
TraceInit == S = <<>> /\ A = <<>> /\ l = 1
TNew == /\ Is("new") /\ S' = [rb |-> R.in, lb |-> Lim(R.in, FALSE), ub |-> Lim(R.in, TRUE)] /\ A' = <<>>
        /\ (Sized(R, S') /\ Limits(R, S')) = TRUE
        /\ Ck("a point", Len(R.rand) = R.nx /\ SamePoint(R.in.jk, MMove(R.in.jk, R.rand, VZero(R.ndx)), R.rand, Tol)) = TRUE
        /\ Report /\ Adv
Keep == UNCHANGED <<S, A>> /\ Report /\ Adv
TDiff == /\ Is("diff")
         /\ LET a == R.in ok == Len(a.x0) = Nx /\ Len(a.x1) = Nx /\ a.no = 2 * Nv IN
            (IF ok THEN Ck("difference", ~R.thrown /\ IsDiff(Ks, a.x0, a.x1, R.out, Tol9)) /\ Ck("returned", VEq(R.ret, R.out)) ELSE Ck("wrong size rejected", R.thrown)) = TRUE
         /\ Keep
TMove == /\ Is("move")
         /\ LET a == R.in ok == Len(a.x) = Nx /\ Len(a.dx) = 2 * Nv /\ a.no = Nx IN
            (IF ok THEN Ck("moved point", ~R.thrown /\ SamePoint(Ks, R.out, MMove(Ks, a.x, a.dx), Tol9)) /\ Ck("returned", VEq(R.ret, R.out)) ELSE Ck("wrong size rejected", R.thrown)) = TRUE
         /\ Keep
Sel(w, i) == w = "both" \/ w = i
Sq(M) == Len(M) = 2 * Nv /\ \A i \in 1..Len(M) : Len(M[i]) = 2 * Nv
Block(M) == \A i, j \in 1..2 * Nv : (i <= Nv) = (j <= Nv) \/ REq(M[i][j], "0")
\* the recorded Jacobians are derivatives: along the direction e they match differences of the maps
Derives == /\ Ck("sizes of the Jacobians", Sq(R.first) /\ Sq(R.second))
           /\ Ck("derivative in the first argument", VClose(MV(R.first, R.in.e), Slope(R.vf), "1/10000000"))
           /\ Ck("derivative in the second argument", VClose(MV(R.second, R.in.e), Slope(R.vs), "1/10000000"))
           /\ Ck("configuration and velocity apart", Block(R.first) /\ Block(R.second))
TJ == /\ Is("jdiff") \/ Is("jmove")
      /\ Derives = TRUE
      /\ LET a == R.in ok == (Sel(a.w, "first") => Sq(a.a)) /\ (Sel(a.w, "second") => Sq(a.b)) IN
         (IF ok THEN /\ Ck("first Jacobian", ~R.thrown /\ MClose(R.a, IF Sel(a.w, "first") THEN Acc(a.mode, a.a, R.first) ELSE a.a, Tol))
                     /\ Ck("second Jacobian", MClose(R.b, IF Sel(a.w, "second") THEN Acc(a.mode, a.b, R.second) ELSE a.b, Tol))
          ELSE Ck("wrong size rejected", R.thrown)) = TRUE
      /\ Keep
TTrans == /\ Is("trans") /\ Derives = TRUE
          /\ (IF R.in.w = "both" THEN Ck("both rejected", R.thrown) ELSE Ck("transported", ~R.thrown /\ MClose(R.a, MMul((IF R.in.w = "first" THEN R.first ELSE R.second), R.in.a), Tol9))) = TRUE
          /\ Keep
TJs == /\ Is("js") /\ Derives = TRUE
       /\ Ck("returned Jacobians", LET p == CASE R.in.w = "both" -> <<R.first, R.second>> [] R.in.w = "first" -> <<R.first>> [] OTHER -> <<R.second>> IN Len(R.jm) = Len(p) /\ \A i \in 1..Len(p) : MEq(R.jm[i], p[i])) = TRUE
       \* the Jacobians of the difference to the point moved to invert them
       /\ (/\ Ck("returned number", Len(R.jd) = IF R.in.w = "both" THEN 2 ELSE 1)
           /\ Ck("inverse in the first", IF R.in.w = "second" THEN TRUE ELSE MClose(MMul(R.second, R.jd[1]), MScale("-1", R.first), Tol9))
           /\ Ck("inverse in the second", IF R.in.w = "first" THEN TRUE ELSE MClose(MMul(R.second, R.jd[Len(R.jd)]), MId(2 * Nv), Tol9))) = TRUE
       /\ Keep
TLimit == /\ Is("limit")
          /\ LET a == R.in ok == Len(a.v) = Nx IN
             /\ Ck("accepted exactly when of the right size", R.thrown = ~ok) = TRUE
             /\ S' = IF ~ok THEN S ELSE IF a.up THEN [S EXCEPT !.ub = a.v] ELSE [S EXCEPT !.lb = a.v]
          /\ (Sized(R, S') /\ Limits(R, S')) = TRUE
          /\ UNCHANGED A /\ Report /\ Adv
\* single precision: the same state; the largest numbers are without limit
Wide(a) == ~RIsNum(a) \/ RLe("300000000000000000000000000000000000000", RAbs(a))
NearF(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : IF Wide(w[i]) THEN Wide(v[i]) ELSE RClose(v[i], w[i], "1/1000000")
TCast == /\ Is("cast") /\ Sized(R, S) = TRUE
         /\ Ck("limits converted", NearF(R.lb, S.lb) /\ NearF(R.ub, S.ub)) = TRUE
         /\ Ck("moves alike", SamePoint(Ks, R.fmoved, R.moved, "1/50000")) = TRUE
         /\ Keep
TAct == /\ Is("act")
        /\ LET a == [k |-> R.in.k, th |-> Ths(R.in)] ok == a.k # "thr" \/ S.rb.root IN
           /\ Ck("accepted exactly with a root joint", R.thrown = ~ok) = TRUE
           /\ A' = IF ok THEN a ELSE A
        /\ UNCHANGED S /\ Report /\ Adv
TThr == /\ Is("thr")
        /\ LET ok == Len(R.in.tR) = Len(A.th) IN Ck("accepted exactly with as many", R.thrown = ~ok) = TRUE /\ A' = IF ok THEN [A EXCEPT !.th = Ths(R.in)] ELSE A
        /\ UNCHANGED S /\ Report /\ Adv
TData == Is("data") /\ Keep
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
OrdC == R.in.ord \in {"cdtm", "ctm", "mtcd", "cd"}
OrdM == R.in.ord # "cd"
Good(o, W) ==
  /\ Ck("torques", IF OrdC THEN VClose(o.tau, MV(W, R.in.u), Tol) ELSE TRUE)
  /\ Ck("derivatives", (\A i \in 1..Len(o.dx) : \A j \in 1..Len(o.dx[i]) : REq(o.dx[i][j], "0")) /\ MClose(o.du, W, Tol))
  /\ Ck("transform", Pseudo(o.mt, W, Tol9))
  /\ Ck("commands", IF OrdM THEN VClose(o.u, MV(o.mt, R.in.tau), Tol9) ELSE TRUE)
  /\ Ck("which torques are set", LET P == MMul(W, o.mt) IN \A i \in 1..Nv : IF RLt("1/1000000", RAbs(P[i][i])) THEN o.set[i] = 1 ELSE (\A j \in 1..Len(W[i]) : REq(W[i][j], "0")) => o.set[i] = 0)
TEval == /\ Is("aeval")
         /\ LET a == R.in ok == (~OrdC \/ Len(a.u) = NuOf(S, A)) /\ (~OrdM \/ Len(a.tau) = Nv) W == Map(S, A) IN
            (IF ~ok THEN Ck("wrong size rejected", R.th = 2)
             ELSE /\ Ck("evaluates", ~R.thrown) /\ Good(R.o, W) /\ Good(R.n, W)
                  /\ (IF a.cast THEN Ck("converted", VClose(R.c.tau, MV(W, a.u), "1/100000") /\ MClose(R.c.du, W, "1/1000000")) ELSE TRUE)) = TRUE
         /\ Keep
TraceNext == TNew \/ TDiff \/ TMove \/ TJ \/ TTrans \/ TJs \/ TLimit \/ TCast \/ TAct \/ TThr \/ TData \/ TEval
TraceSpec == TraceInit /\ [][TraceNext]_<<S, A, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
