----------------------------- MODULE CostsTrace ------------------------------
EXTENDS Costs, Json, IOUtils
VARIABLES S, l \* the current cost: activation A and residual S (<<>> before one is accepted)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Claims(p) == IOEnv.PROP = p
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/10000000000"
\* an infinite bound is held as the largest number
BEq(a, b) == IF RIsNum(b) THEN RClose(a, b, "1/1000000000000") ELSE IF b = "inf" THEN RLt("1e300", a) ELSE RLt(a, "-1e300")
Bounds(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : BEq(a[i], b[i])
VNear(a, b) == VClose(a, b, "1/1000000000000")
RNear(a, b) == RClose(a, b, "1/1000000000000")
Reports(m, C) ==
  /\ Ck("kinds", m.ak = C.A.k /\ m.rk = C.S.k)
  /\ Ck("sizes", m.nr = C.A.nr /\ m.rnr = C.S.nr /\ m.nu = C.S.nu)
  /\ Ck("constraint sizes", m.gng = C.S.nr /\ m.gnh = 0 /\ m.hng = 0 /\ m.hnh = C.S.nr)
  /\ Ck("constraint bounds", m.glb = [i \in 1..C.S.nr |-> "-1"] /\ m.gub = [i \in 1..C.S.nr |-> "2"])
  /\ Ck("dependence", m.dq = C.S.dq /\ m.dv = C.S.dv /\ m.du = C.S.du)
  /\ Ck("activation parameters", /\ (IF C.A.k \in {"norm", "exp", "log"} THEN RNear(m.alpha, C.A.alpha) ELSE TRUE)
                                 /\ (IF C.A.k \in {"wquad", "wbar"} THEN VNear(m.w, C.A.w) ELSE TRUE))
  /\ Ck("bounds", IF C.A.k \in {"bar", "wbar"} THEN Bounds(m.lb, C.A.lb) /\ Bounds(m.ub, C.A.ub) /\ RNear(m.beta, C.A.beta) ELSE TRUE)
  /\ Ck("reference", IF C.S.k # "poly" THEN VNear(m.ref, C.S.ref) ELSE TRUE)
AllReport == (IF S' = <<>> THEN ~R.some ELSE R.some /\ Reports(R.m, S')) = TRUE
TraceInit == S = <<>> /\ l = 1
Quad(n) == [k |-> "quad", nr |-> n, alpha |-> "1", exact |-> TRUE, w |-> <<>>, lb |-> <<>>, ub |-> <<>>, beta |-> "1"]
ResOf(a) ==
  LET fwd == a.rk_ = "effort" /\ a.via = "full" /\ a.fwd IN
  [k |-> a.rk_, nv |-> a.nv, nr |-> a.rn, nu |-> a.nu, rc |-> a.rc, rL |-> a.rL, ri |-> a.ri, rk |-> a.rk, ref |-> IF a.via \in {"nu", "state"} THEN VZero(a.rn) ELSE a.ref,
   dq |-> IF a.rk_ = "poly" THEN a.dq ELSE a.rk_ # "ctrl" /\ ~fwd, dv |-> IF a.rk_ = "poly" THEN a.dv ELSE a.rk_ # "ctrl" /\ ~fwd, du |-> IF a.rk_ = "poly" THEN a.du ELSE TRUE]
TNew ==
  /\ Is("new")
  /\ LET a == R.in s == ResOf(a) aok == ActOk(a) A == IF aok THEN ActOf(a) ELSE <<>>
         ok == aok /\ (a.plain \/ A.nr = s.nr) /\ (a.rk_ = "acc" /\ a.via \in {"full", "ref"} => Len(a.ref) = s.nr) IN
     /\ Ck("accepted exactly when consistent", R.thrown = ~ok) = TRUE
     /\ S' = IF ok THEN [A |-> IF a.plain THEN Quad(s.nr) ELSE A, S |-> s] ELSE S
  /\ AllReport /\ Adv
TAlpha == Is("alpha") /\ ~R.thrown /\ S' = (IF S.A.k \in {"norm", "exp", "log"} THEN [S EXCEPT !.A.alpha = R.in.alpha] ELSE S) /\ AllReport /\ Adv
TWeights == /\ Is("weights") /\ LET ok == Len(R.in.w) = S.A.nr IN Ck("weights accepted exactly when of the right size", R.thrown = ~ok) = TRUE /\ S' = IF ok THEN [S EXCEPT !.A.w = R.in.w] ELSE S
            /\ AllReport /\ Adv
TBounds == /\ Is("bounds")
           /\ LET a == R.in ok == BoundsOk(a.lb, a.ub, a.beta) IN
              /\ Ck("bounds accepted exactly when consistent", R.thrown = ~ok) = TRUE
              /\ S' = IF ok THEN [S EXCEPT !.A.lb = Shrink(a.lb, a.ub, a.beta, TRUE), !.A.ub = Shrink(a.lb, a.ub, a.beta, FALSE), !.A.beta = a.beta] ELSE S
           /\ AllReport /\ Adv
TRef == /\ Is("ref") /\ LET ok == Len(R.in.ref) = S.S.nr IN Ck("reference accepted exactly when of the right size", R.thrown = ~ok) = TRUE /\ S' = IF ok THEN [S EXCEPT !.S.ref = R.in.ref] ELSE S
        /\ AllReport /\ Adv
TData == Is("data") /\ UNCHANGED S /\ AllReport /\ Adv
Clean(o) == \A c \in DOMAIN o : IF c = "l" THEN RIsNum(o[c]) ELSE IF c \in {"gr", "he", "lx", "lu", "cg", "ch"} THEN VIsNum(o[c]) ELSE MIsNum(o[c])
SameAsNew(r) == Ck("new data differs", r.o = r.n)
TAEval ==
  /\ Is("aeval") /\ UNCHANGED S
  /\ LET r == R.in.r A == S.A IN
     (IF Len(r) # A.nr THEN Ck("wrong size rejected", R.thrown)
      ELSE /\ Ck("evaluates", ~R.any)
           /\ IF ~Claims("C19") THEN SameAsNew(R)
              ELSE /\ Ck("value", RClose(R.o.l, AValue(A, r), Tol))
                   /\ Ck("gradient", IF Smooth(A, r) THEN VClose(R.o.gr, AGrad(A, r), Tol) ELSE TRUE)
                   /\ Ck("Hessian", IF HasHess(A, r) THEN VClose(R.o.he, AHess(A, r), Tol) ELSE TRUE)) = TRUE
  /\ AllReport /\ Adv
Near(o, v) == \A c \in DOMAIN v : Ck(c, IF c \in {"lx", "lu"} THEN VClose(o[c], v[c], Tol) ELSE MClose(o[c], v[c], Tol))
TCEval ==
  /\ Is("ceval") /\ UNCHANGED S
  /\ LET a == R.in A == S.A s == S.S
         e == IF a.t THEN AtEnd(s, a.x, a) ELSE Running(s, a.x, a.u, a)
         hess == HasHess(A, e.r) IN
     (/\ Ck("evaluates", ~R.any)
      /\ IF ~Claims("C19") THEN SameAsNew(R)
         ELSE /\ LET v == Constrains(s, a.x, a.u, a.t, a, a.diff) IN \A c \in DOMAIN v : Ck(c, IF c \in {"cg", "ch"} THEN VClose(R.o[c], v[c], Tol) ELSE MClose(R.o[c], v[c], Tol))
              /\ Ck("cost", RClose(R.o.l, CValue(A, s, a.x, a.u, a.t, a), Tol))
              /\ IF ~a.diff \/ (Counts(s, a.t) /\ ~Smooth(A, e.r)) THEN TRUE
                 ELSE LET v == CDeriv(A, s, a.x, a.u, a.t, a, IF hess THEN AHess(A, e.r) ELSE VZero(Len(e.r))) IN
                      Near(R.o, [c \in (IF hess \/ ~Counts(s, a.t) THEN DOMAIN v ELSE DOMAIN v \cap {"lx", "lu"}) |-> v[c]])) = TRUE
  /\ AllReport /\ Adv
TraceNext == TNew \/ TAlpha \/ TWeights \/ TBounds \/ TRef \/ TData \/ TAEval \/ TCEval
TraceSpec == TraceInit /\ [][TraceNext]_<<S, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
