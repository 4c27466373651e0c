---------------------------- MODULE ModelsTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the real models.  R.in is the operation, R.ms     *)
(* what every model reports afterwards (parameters and limits), R.o the    *)
(* result in the data object used and R.n the result in a brand-new one.   *)
(***************************************************************************)
EXTENDS ModelData, ModelFormulas, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Claims(p) == IOEnv.PROP = p
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Vecs == {"f", "q", "r", "g", "h", "w"}
Lims == {"ulb", "uub", "glb", "gub", "xlb", "xub"}
SameP(p, q) == DOMAIN p = DOMAIN q /\ \A c \in DOMAIN p : IF c = "dt" THEN REq(p[c], q[c]) ELSE IF c \in Vecs THEN VEq(p[c], q[c]) ELSE MEq(p[c], q[c])
Inf(n, s) == [i \in 1..n |-> s]
NoLim(d) == [ulb |-> Inf(d.nu, "-inf"), uub |-> Inf(d.nu, "inf"), glb |-> Inf(d.ng, "-inf"), gub |-> Inf(d.ng, "inf"), xlb |-> Inf(d.nx, "-inf"), xub |-> Inf(d.nx, "inf")]
\* the inequality bounds of a model with constraints given start as one-sided: the constraint is at most zero
Fin(v) == \E i \in 1..Len(v) : RIsNum(v[i])
Has(L) == Fin(L.ulb) \/ Fin(L.uub)
SizesOf(k, P) == [nx |-> Nx(k, P), nu |-> Nu(k, P), ng |-> Ng(k, P), nh |-> Nh(k, P)]
Made(k, P) == [k |-> k, P |-> P, L |-> NoLim(SizesOf(k, P)), S |-> SizesOf(k, P), st |-> l]
\* what a model reports is its current state
Reports(r, m) ==
  /\ Ck("kind", r.k = m.k)
  /\ Ck("dimensions", r.S = m.S)
  /\ Ck("parameters", SameP(r.P, m.P))
  /\ Ck("limits", \A c \in Lims : VEq(r.L[c], m.L[c]))
  /\ Ck("limits flag", r.has = Has(m.L) /\ r.xhas = (Fin(m.L.xlb) \/ Fin(m.L.xub)))
Model(r) == r.ms
AllReport(r, ms) == Ck("models", {Model(r)[i].m : i \in 1..Len(Model(r))} = DOMAIN ms) /\ \A i \in 1..Len(Model(r)) : Reports(Model(r)[i], ms[Model(r)[i].m])
Reported(r, m) == (CHOOSE i \in 1..Len(Model(r)) : Model(r)[i].m = m)
Strip(a, S) == [c \in DOMAIN a \ S |-> a[c]]
Given(r) == Filled(r.k, Strip(r, {"op", "m", "k", "via"}))
Ini0 == [dt |-> "1/10", w |-> <<"10", "1">>]
TraceInit == Init /\ l = 1
TReset == Is("reset") /\ models' = [m \in {} |-> None] /\ datas' = [d \in {} |-> None] /\ res' = [d \in {} |-> None] /\ Adv
TNew ==
  /\ Is("new")
  /\ LET a == R.in IN
     IF a.via \in {"full", "mid", "short"}
     THEN LET P == Given(a) ok == Consistent(a.k, P, Nx(a.k, P), Nu(a.k, P), Ng(a.k, P), Nh(a.k, P)) IN
          /\ Ck("accepted exactly when consistent", R.thrown = ~ok) = TRUE
          /\ IF ok THEN New(a.m, Made(a.k, P)) ELSE UNCHANGED vars
     ELSE IF a.via = "rand"
     THEN LET q == Model(R)[Reported(R, a.m)] nx == IF a.k = "lqr" THEN a.n ELSE 2 * a.n IN
          /\ Ck("random model", ~R.thrown /\ Consistent(a.k, q.P, nx, a.nu, a.ng, a.nh)) = TRUE
          /\ New(a.m, Made(a.k, q.P) @@ [rand |-> TRUE])
     ELSE /\ ~R.thrown
          /\ New(a.m, Made(a.k, IF a.via = "uni" THEN [dt |-> Model(R)[Reported(R, a.m)].P.dt, w |-> Ini0.w] ELSE Dims(a.k, a.n, a.nu, a.free)))
  /\ AllReport(R, models') = TRUE /\ Adv
\* a copied unicycle shares the state object (and so its limits) with the original, a copied linear-quadratic model has its own
TCopy == Is("copy") /\ New(R.in.n, IF models[R.in.m].k = "uni" THEN models[R.in.m] ELSE [models[R.in.m] EXCEPT !.st = l]) /\ AllReport(R, models') = TRUE /\ Adv
TSet ==
  /\ Is("set")
  /\ LET a == R.in m == models[a.m] P == Strip(a, {"op", "m"}) ok == Consistent(m.k, P, m.S.nx, m.S.nu, m.S.ng, m.S.nh) IN
     /\ Ck("accepted exactly when consistent", R.thrown = ~ok) = TRUE
     /\ IF ok THEN Change(a.m, [m EXCEPT !.P = P]) ELSE UNCHANGED vars
  /\ AllReport(R, models') = TRUE /\ Adv
TDt == /\ Is("dt")
       /\ LET a == R.in ok == RLt("0", a.dt) IN
          /\ Ck("accepted exactly when positive", R.thrown = ~ok) = TRUE
          /\ IF ok THEN Change(a.m, [models[a.m] EXCEPT !.P.dt = a.dt]) ELSE UNCHANGED vars
       /\ AllReport(R, models') = TRUE /\ Adv
TWeights == Is("weights") /\ ~R.thrown /\ Change(R.in.m, [models[R.in.m] EXCEPT !.P.w = R.in.w]) /\ AllReport(R, models') = TRUE /\ Adv
TLimit == /\ Is("limit")
          /\ LET a == R.in m == models[a.m] ok == Len(a.v) = Len(m.L[a.w]) IN
             /\ Ck("accepted exactly when of the right size", R.thrown = ~ok) = TRUE
             /\ IF ~ok THEN UNCHANGED vars
                ELSE IF a.w \in {"xlb", "xub"}
                THEN models' = [n \in DOMAIN models |-> IF models[n].st = m.st THEN [models[n] EXCEPT !.L[a.w] = a.v] ELSE models[n]] /\ UNCHANGED <<datas, res>>
                ELSE Change(a.m, [m EXCEPT !.L[a.w] = a.v])
          /\ AllReport(R, models') = TRUE /\ Adv
\* conversion to single precision
F(a) == IF RIsNum(a) THEN RFloat32(a) ELSE a
FV(v) == [i \in 1..Len(v) |-> F(v[i])]
FM(M) == [i \in 1..Len(M) |-> FV(M[i])]
FP(P) == [c \in DOMAIN P |-> IF c = "dt" THEN F(P[c]) ELSE IF c \in Vecs THEN FV(P[c]) ELSE FM(P[c])]
FMod(m) == [m EXCEPT !.P = FP(m.P), !.L = [c \in Lims |-> FV(m.L[c])]]
Tol == "1/1000000000000"
Near(o, v, tol) == \A c \in DOMAIN v : Ck(c, IF c = "l" THEN RClose(o[c], v[c], tol) ELSE IF c \in {"f", "r", "g", "h", "lx", "lu"} THEN VClose(o[c], v[c], tol) ELSE MClose(o[c], v[c], tol))
TCast ==
  /\ Is("cast")
  /\ LET m == models[R.in.m] IN
     IF R.thrown THEN Ck("cast", "rand" \in DOMAIN m)
     ELSE /\ Reports(R.f, FMod(m))
          /\ Reports(R.b, FMod(m))
          /\ Near(R.o, Value(m.k, m.P, R.in.x, R.in.u), "1/5000") /\ Near(R.o, Deriv(m.k, m.P, R.in.x, R.in.u), "1/5000")
  /\ AllReport(R, models) = TRUE /\ UNCHANGED vars /\ Adv
TData == Is("data") /\ Create(R.in.d, R.in.m) /\ Ck("data accepted", R.ok) = TRUE /\ Adv
\* evaluations
Terminal(k) == IF k = "dlqr" THEN {"l", "g", "h"} ELSE {"f", "l", "r", "g", "h"}
TDer == {"lx", "lxx", "gx", "hx"}
Pick(v, S) == [c \in DOMAIN v \cap S |-> v[c]]
Formula(r, m) ==
  /\ LET v == IF r.in.t THEN Pick(ValueT(m.k, m.P, r.in.x), Terminal(m.k)) ELSE Value(m.k, m.P, r.in.x, r.in.u) IN Near(r.o, v, Tol)
  /\ IF ~r.in.diff THEN TRUE ELSE LET v == IF r.in.t THEN Pick(Deriv(m.k, m.P, r.in.x, VZero(m.S.nu)), TDer) ELSE Deriv(m.k, m.P, r.in.x, r.in.u) IN Near(r.o, v, Tol)
SameAsNew(r, m) ==
  LET S == (IF r.in.t THEN Terminal(m.k) ELSE {"f", "l", "r", "g", "h"}) \cup (IF ~r.in.diff THEN {} ELSE IF r.in.t THEN TDer ELSE {"fx", "fu", "lx", "lu", "lxx", "luu", "lxu", "gx", "gu", "hx", "hu"})
  IN \A c \in S : Ck(<<"new data differs in ", c>>, r.o[c] = r.n[c])
TEval ==
  /\ Is("eval")
  /\ LET a == R.in m == models[datas[a.d]] ok == Len(a.x) = m.S.nx /\ (a.t \/ Len(a.u) = m.S.nu) IN
     (IF ok THEN Ck("evaluates", R.thrown = <<FALSE, FALSE>>) /\ (IF Claims("C16") THEN Formula(R, m) ELSE SameAsNew(R, m))
      ELSE Ck("wrong size rejected", R.thrown = <<TRUE, TRUE>>)) = TRUE
  /\ Eval(R.in.d, R.in) /\ AllReport(R, models) = TRUE /\ Adv
TraceNext == TReset \/ TNew \/ TCopy \/ TSet \/ TDt \/ TWeights \/ TLimit \/ TCast \/ TData \/ TEval
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
