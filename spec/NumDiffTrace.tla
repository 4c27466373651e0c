---------------------------- MODULE NumDiffTrace -----------------------------
(***************************************************************************)
(* Recorded histories of the real finite-difference wrappers: R.in the     *)
(* operation, R.m and R.b what the wrapper and the wrapped component       *)
(* report, v and o the values and derivatives in the data object used      *)
(* (v0: before the derivatives), nv and n those in a brand-new one, w the  *)
(* values of the wrapped component afterwards.                             *)
(***************************************************************************)
EXTENDS NumDiff, Json, IOUtils
VARIABLES M, l \* the wrapped component (<<>> before one is accepted)
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Small == "1/1000000000000"
Names(k, t) == CASE k = "action" -> {"l", "r", "g", "h"} \cup (IF t THEN {} ELSE {"f"}) [] k = "da" -> {"l", "r", "g", "h"} \cup (IF t THEN {} ELSE {"a"})
                 [] k = "act" -> {"v"} [] k = "ctl" -> {"w"} [] k = "cost" -> {"l", "r"} [] k = "res" -> {"r"} [] k = "con" -> {"g", "h"} [] k = "atn" -> {"t"} [] k = "ctc" -> {"d", "j"}
Fin(v) == \E i \in 1..Len(v) : RIsNum(v[i])
\* what a component says about itself
Dims(m, P) ==
  \A c \in DOMAIN m :
    Ck(<<"reports", c>>,
       CASE c \in {"nx", "nu", "nr", "ng", "nh", "ngT", "nhT", "nw"} -> m[c] = P[c]
         [] c = "ndx" -> m.ndx = P.nx
         [] c \in {"nq", "nv"} -> m[c] = P.nx \div 2
         [] c \in {"xlb", "xub", "ulb", "uub", "glb", "gub"} -> VEq(m[c], P[c])
         [] c = "xhas" -> m.xhas = (Fin(P.xlb) \/ Fin(P.xub))
         [] c = "uhas" -> m.uhas = (Fin(P.ulb) \/ Fin(P.uub))
         [] c = "T" -> m.T = P.T
         [] c = "id" -> m.id = P.nu + 1
         [] c = "model" -> m.model)
Reports == (IF M' = <<>> THEN ~R.some ELSE R.some /\ Dims(R.m, M') /\ Dims(R.b, M')) = TRUE
FnOf(P, p, c) == [n |-> P[p \o c \o "n"], i |-> P[p \o c \o "i"], k |-> P[p \o c \o "k"]]
TraceInit == M = <<>> /\ l = 1
TNew == /\ Is("new")
        /\ LET ok == ~(R.in.kind = "da" /\ R.in.gauss /\ R.in.nr = 1) IN
           /\ Ck("accepted", R.thrown = ~ok) = TRUE
           /\ M' = IF ok THEN R.in ELSE M
        /\ Reports /\ Adv
TDist == /\ Is("dist") /\ UNCHANGED M
         /\ LET ok == ~RLt(R.in.v, "0") IN
            /\ Ck("disturbance accepted", R.thrown = ~ok) = TRUE
            /\ Ck("disturbance held", IF ok THEN RClose(R.e, R.in.v, "0") \/ RLe(RAbs(RSub(R.e, R.in.v)), RMul(R.in.v, Small)) ELSE l > 1 /\ Trace[l - 1].e = R.e) = TRUE
         /\ Reports /\ Adv
TData == Is("data") /\ UNCHANGED M /\ Reports /\ Adv
X == R.in.x
U == IF R.in.t \/ M.kind = "ctc" THEN <<>> ELSE R.in.u
Pfx == IF R.in.t THEN "E" ELSE "R"
ValuesOk(P, v) == \A c \in Names(P.kind, R.in.t) : Ck(<<"value", c>>, VClose(v[c], Value(P.st, c, FnOf(P, Pfx, c), X, U), Small))
\* derivatives of every reported function within the error of the differences
JacOk(P, o) ==
  LET z == X \o U
      Tol(c) == LET S == FSize(FnOf(P, Pfx, c), z) IN ErrJ(P.st, R.e, z, IF c = "f" THEN RMul(S, RMul(S, Norm("heis", z))) ELSE IF P.st = "vec" THEN S ELSE RMul(S, Norm("heis", z)))
      TolF(c) == IF c = "f" /\ P.st = "vec" THEN ErrJ(P.st, R.e, z, RAdd("2", FSize(FnOf(P, Pfx, c), z))) ELSE Tol(c)
  IN /\ (IF "x" \in DOMAIN o THEN \A c \in DOMAIN o.x : Ck(<<"derivative in the state of", c>>, Within(o.x[c], InX(P.st, c, FnOf(P, Pfx, c), X, U), TolF(c))) ELSE TRUE)
     /\ (IF "u" \in DOMAIN o THEN \A c \in DOMAIN o.u : Ck(<<"derivative in the control of", c>>, Within(o.u[c], InU(P.st, c, FnOf(P, Pfx, c), X, U), TolF(c))) ELSE TRUE)
\* second derivatives of the cost: exact ones, or from the residual when asked
Ones(n) == [i \in 1..n |-> "1"]
HessOk(P, o) ==
  LET z == X \o U
      F == FnOf(P, Pfx, "l") G == FnOf(P, Pfx, "r")
      gauss == P.kind = "cost" \/ P.gauss
      w == IF P.kind = "cost" THEN P.wts ELSE Ones(P.nr)
      rx == InX(P.st, "r", G, X, U) ru == InU(P.st, "r", G, X, U)
      none == P.nr = 0
      SG == RMul(FSize(G, z), IF P.st = "vec" THEN "1" ELSE Norm("heis", z))
      tol == IF gauss THEN RMul("4", RMul(RMul(SG, RInt(P.nr + 1)), ErrJ(P.st, R.e, z, SG))) ELSE ErrH(P.st, R.e, z, RMul(FSize(F, z), IF P.st = "vec" THEN "1" ELSE Norm("heis", z)))
      nx == Len(X) nu == Len(U)
  IN /\ Ck("second derivative in the state", Within(o.xx, IF gauss THEN (IF none THEN MZero(nx, nx) ELSE GaussOf(w, rx, rx)) ELSE HXX(P.st, F, X, U), tol))
     /\ (IF R.in.t THEN TRUE
         ELSE /\ Ck("mixed second derivative", Within(o.xu, IF gauss THEN (IF none THEN MZero(nx, nu) ELSE GaussOf(w, rx, ru)) ELSE HXU(P.st, F, X, U), tol))
              /\ Ck("second derivative in the control", Within(o.uu, IF gauss THEN (IF none THEN MZero(nu, nu) ELSE GaussOf(w, ru, ru)) ELSE HUU(F, X, U), tol)))
TEval ==
  /\ Is("eval") /\ UNCHANGED M
  /\ (/\ Ck("evaluates", ~R.thrown)
      /\ ValuesOk(M, R.v0) /\ Ck("differences change the value", R.v = R.v0) /\ Ck("values differ in new data", R.nv = R.v)
      /\ ValuesOk(M, R.w) /\ Ck("not the value of the wrapped component", R.w = R.v)
      /\ IF R.in.diff THEN Ck("derivatives differ in new data", R.n = R.o) /\ JacOk(M, R.o) /\ (M.kind \in {"action", "da", "cost"} => HessOk(M, R.o)) ELSE TRUE) = TRUE
  /\ Reports /\ Adv
TQuasi == /\ Is("quasi") /\ UNCHANGED M
          /\ Ck("equilibrium control of the wrapped component", R.thrown = R.wt /\ R.o = R.w) = TRUE
          /\ Reports /\ Adv
TPass == /\ Is("pass") /\ UNCHANGED M
         /\ (/\ \A c \in DOMAIN R.o \ {"prod", "rej"} : Ck(<<"passed on", c>>, R.o[c] = R.w[c])
             /\ ("rej" \in DOMAIN R.o => Ck("force of wrong size", R.o.rej))
             /\ ("prod" \in DOMAIN R.o => Ck("products with the derivative", RLe(R.o.prod, Small)))) = TRUE
         /\ Reports /\ Adv
TState ==
  /\ Is("seval") /\ UNCHANGED M
  /\ LET a == R.in st == M.st n == M.nx
         d == SDiff(st, a.x, a.y)
         S == Pow2(Norm("heis", a.x \o a.y \o a.dx))
         tol == ErrJ(st, R.e, a.x \o a.y \o a.dx, RMul("8", S))
         tol2 == RMul("40", RMul(RInt(n), tol))
     IN (/\ Ck("difference", VClose(R.diff, d, Small)) /\ Ck("motion", VClose(R.move, SMove(st, a.x, a.dx), Small)) /\ Ck("origin", VEq(R.zero, VZero(n)))
         /\ Ck("difference in the first point", IF a.comp = "second" THEN MEq(R.d1, a.A) ELSE Within(R.d1, SDiffFirst(st, d), tol))
         /\ Ck("difference in the second point", IF a.comp = "first" THEN MEq(R.d2, a.B) ELSE Within(R.d2, SDiffSecond(st, d), tol))
         /\ Ck("motion in the point", IF a.comp = "second" THEN MEq(R.m1, a.A) ELSE Within(R.m1, Acc(a.mode, a.A, SFirst(st, a.dx)), tol))
         /\ Ck("motion in the displacement", IF a.comp = "first" THEN MEq(R.m2, a.B) ELSE Within(R.m2, Acc(a.mode, a.B, SSecond(st, a.dx)), tol))
         /\ Ck("carried matrix", ~R.thrown /\ Within(R.tr, Carry(st, a.dx, a.which, a.C), tol2))) = TRUE
  /\ Reports /\ Adv
TraceNext == TNew \/ TDist \/ TData \/ TEval \/ TQuasi \/ TPass \/ TState
TraceSpec == TraceInit /\ [][TraceNext]_<<M, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
