----------------------------- MODULE IntegTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the real integrated models: R.in the operation,   *)
(* R.m what the model reports afterwards, R.o the result in the data       *)
(* object used, R.n the result in a brand-new one.                         *)
(***************************************************************************)
EXTENDS Integrators, Json, IOUtils
VARIABLES I, l \* the integrated model (<<>> before one is accepted)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Claims(p) == IOEnv.PROP = p
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/1000000000"
DamF == {"st", "nv", "nw", "ngT", "nhT", "lim", "ac", "aL", "ai", "ak", "gc", "gL", "gi", "gk", "hc", "hL", "hi", "hk", "rc", "rL", "ri", "rk", "H", "c", "lb", "ub", "glb", "gub"}
Pick(v, S) == [c \in DOMAIN v \cap S |-> v[c]]
Fin(v) == \E i \in 1..Len(v) : RIsNum(v[i])
Reports(m, J) ==
  LET D == J.D IN
  /\ Ck("time step", IF J.exact THEN REq(m.dt, J.dt) ELSE RClose(m.dt, J.dt, "1/1000000000000"))
  /\ Ck("dimensions", m.nx = 2 * D.nv /\ m.nu = NuI(J) /\ m.nr = Len(D.rc) /\ m.ng = Len(D.gc) /\ m.nh = Len(D.hc) /\ m.ngT = D.ngT /\ m.nhT = D.nhT /\ m.dam)
  /\ Ck("constraint bounds", VEq(m.glb, D.glb) /\ VEq(m.gub, D.gub))
  /\ Ck("control limits", VEq(m.lb, Limits(J).lb) /\ VEq(m.ub, Limits(J).ub) /\ m.has = (Fin(D.lb) \/ Fin(D.ub)))
AllReport == (IF I' = <<>> THEN ~R.some ELSE R.some /\ Reports(R.m, I')) = TRUE
\* the time step actually held is a double: the specification computes with it
Held(dt) == R.m.dt
Exact(dt) == dt \in {"1/2", "1/4", "1/8", "1", "0"}
TraceInit == I = <<>> /\ l = 1
TNew == /\ Is("new")
        /\ LET a == R.in ok == a.cnw = a.nw \/ a.ctrl = "none" dt == IF RLt(a.dt, "0") THEN "1/1000" ELSE a.dt IN
           /\ Ck("accepted exactly when consistent", R.thrown = ~ok) = TRUE
           /\ I' = IF ~ok THEN I ELSE [scheme |-> a.scheme, ctrl |-> a.ctrl, dt |-> dt, exact |-> Exact(dt), resid |-> a.resid, D |-> Pick(a, DamF)]
        /\ AllReport /\ Adv
TSetDt == /\ Is("setdt")
          /\ LET a == R.in ok == ~RLt(a.dt, "0") IN
             /\ Ck("accepted exactly when not negative", R.thrown = ~ok) = TRUE
             /\ I' = IF ok THEN [I EXCEPT !.dt = a.dt, !.exact = Exact(a.dt)] ELSE I
          /\ AllReport /\ Adv
TSetDiff == /\ Is("setdiff")
            /\ LET a == R.in ok == a.nw = I.D.nw IN
               /\ Ck("accepted exactly when consistent", R.thrown = ~ok) = TRUE
               /\ I' = IF ok THEN [I EXCEPT !.D = Pick(a, DamF)] ELSE I
            /\ AllReport /\ Adv
TData == Is("data") /\ UNCHANGED I /\ AllReport /\ Adv
TCheck == Is("check") /\ UNCHANGED I /\ Ck("data recognized", R.ok = (R.in.w = "own")) = TRUE /\ AllReport /\ Adv
Near(o, v) == \A c \in DOMAIN v : Ck(c, IF c = "l" THEN RClose(o[c], v[c], Tol) ELSE IF c \in {"f", "r", "g", "h", "lx", "lu"} THEN VClose(o[c], v[c], Tol) ELSE MClose(o[c], v[c], Tol))
Shown(v, J) == IF J.resid THEN v ELSE Pick(v, DOMAIN v \ {"r"})
Formula(r, J) ==
  IF r.in.t THEN Near(r.o, Shown(EndValue(J, r.in.x), J)) /\ (IF r.in.diff THEN Near(r.o, EndDeriv(J, r.in.x)) ELSE TRUE)
  ELSE LET s == Stages(J, r.in.x, r.in.u, Len(Times(J.scheme))) IN
       Near(r.o, Shown(ActValue(J, s, r.in.x), J)) /\ (IF r.in.diff THEN Near(r.o, ActDeriv(J, s)) ELSE TRUE)
SameAsNew(r, J) == \A c \in DOMAIN r.o : (c # "r" \/ J.resid) => Ck(<<"new data differs in ", c>>, r.o[c] = r.n[c])
TEval ==
  /\ Is("eval") /\ UNCHANGED I
  /\ LET a == R.in ok == Len(a.x) = 2 * I.D.nv /\ (a.t \/ Len(a.u) = NuI(I)) IN
     (IF ok THEN Ck("evaluates", ~R.any) /\ (IF Claims("C17") THEN Formula(R, [I EXCEPT !.dt = Held(I.dt)]) ELSE SameAsNew(R, I))
      ELSE Ck("wrong size rejected", R.thrown)) = TRUE
  /\ AllReport /\ Adv
\* the control that holds the system in equilibrium, when the acceleration is affine in the control and determines it
Affine(D) == \A j \in 1..Len(D.ak) : ~(D.ai[j][2] > 2 * D.nv /\ D.ai[j][3] > 2 * D.nv)
TQuasi ==
  /\ Is("quasi") /\ UNCHANGED I
  /\ LET D == I.D x == R.in.x nu == NuI(I)
         Fu == DDeriv(D, x, VZero(D.nw), TRUE).fu IN
     (IF Affine(D) /\ D.nw = D.nv /\ MNonSingular(Fu)
      THEN LET w == MSolve(Fu, [i \in 1..D.nv |-> <<RNeg(DValue(D, x, VZero(D.nw), TRUE).a[i])>>])
               u == Params(CtrlKind(I.ctrl), [i \in 1..D.nw |-> w[i][1]]) IN
           Ck("quasi-static control", ~R.thrown /\ VClose(R.u, u, "1/1000000") /\ VClose(R.ux, u, "1/1000000"))
      ELSE TRUE) = TRUE
  /\ AllReport /\ Adv
TraceNext == TNew \/ TSetDt \/ TSetDiff \/ TData \/ TCheck \/ TEval \/ TQuasi
TraceSpec == TraceInit /\ [][TraceNext]_<<I, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
