----------------------------- MODULE RobotDynTrace ----------------------------
EXTENDS RobotDyn, Json, IOUtils
VARIABLES S, l \* the action
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Has6 == {"cf", "ci", "im"}
Tol == S.tol
DTol == IF S.cast THEN "1/1000" ELSE "1/100000"
Nv == NvR(S)
Nq == NqR(S)
X == SubSeq(R.in.x, 1, Nq)
W == SubSeq(R.in.x, Nq + 1, Nq + Nv)
TraceInit == S = <<>> /\ l = 1
TNew == Is("new") /\ S' = [rb |-> R.in, k |-> R.in.k, act |-> R.in.act, on |-> R.in.on, ac |-> R.in.ac, as |-> R.in.as, ak |-> R.in.ak, mu |-> R.in.mu, rc |-> R.in.rc, force |-> R.in.force,
                           arm |-> VZero(SNv(R.in.jk)), it |-> <<>>, costs |-> <<>>, user |-> <<>>, tol |-> "1/100000000", cast |-> FALSE, made |-> FALSE]
        /\ Ck("made", ~R.thrown) = TRUE /\ Adv
TCon == Is("con") /\ S' = [S EXCEPT !.it = Add(S.it, [id |-> R.in.id, n |-> R.in.n, c |-> R.in, on |-> R.in.on, b |-> 0])] /\ Ck("no throw", ~R.thrown) = TRUE /\ Adv
TCost == Is("cost") /\ S' = [S EXCEPT !.costs = Add(S.costs, R.in)] /\ Ck("no throw", ~R.thrown) = TRUE /\ Adv
TUser == Is("user") /\ S' = [S EXCEPT !.user = Add(S.user, R.in)] /\ Ck("no throw", ~R.thrown) = TRUE /\ Adv
Lims(v, e) == Len(v) = NuM(S) /\ \A i \in 1..Len(v) : v[i] = e
TMake == /\ Is("make") /\ S' = [S EXCEPT !.made = R.in.bad = ""] /\ Adv
         /\ (IF R.in.bad # "" THEN Ck("other inputs rejected", R.thrown)
             ELSE /\ Ck("made", ~R.thrown) /\ Ck("inputs", R.nu = NuM(S)) /\ Ck("residuals", R.nr = SumNr(S, S.costs))
                  /\ Ck("equalities", R.nh = SumNr(S, Eqs(S)) + NhOwn(S)) /\ Ck("inequalities", R.ng = SumNr(S, Ineqs(S)))
                  /\ Ck("equalities at the end", R.nhT = SumNr(S, Eqs(S))) /\ Ck("inequalities at the end", R.ngT = SumNr(S, Ineqs(S)))
                  /\ Ck("limits", CASE S.k \in {"ff", "cf"} -> Lims(R.ul, "-1000") /\ Lims(R.uu, "1000") [] S.k \in {"fi", "ci"} -> Lims(R.ul, "-inf") /\ Lims(R.uu, "inf") [] OTHER -> R.ul = <<>> /\ R.uu = <<>>)) = TRUE
TData == Is("data") /\ Ck("no throw", ~R.thrown) = TRUE /\ UNCHANGED S /\ Adv
TStatus == Is("status") /\ S' = [S EXCEPT !.it = Turn(S.it, R.in.id, R.in.on)] /\ Ck("no throw", ~R.thrown) = TRUE /\ Adv
TArm == /\ Is("arm") /\ LET ok == Len(R.in.v) = Nv IN Ck("armature accepted exactly with its size", R.thrown = ~ok) = TRUE /\ S' = (IF ok THEN [S EXCEPT !.arm = R.in.v] ELSE S)
        /\ Adv
TMu == Is("mu") /\ (LET ok == RLe("0", R.in.v) IN Ck("damping accepted exactly if not negative", R.thrown = ~ok) = TRUE /\ S' = (IF ok THEN [S EXCEPT !.mu = R.in.v] ELSE S)) /\ Adv
TRc == Is("rc") /\ (LET ok == RLe("0", R.in.v) IN Ck("restitution accepted exactly if not negative", R.thrown = ~ok) = TRUE /\ S' = (IF ok THEN [S EXCEPT !.rc = R.in.v] ELSE S)) /\ Adv
TCast == Is("cast") /\ S' = [S EXCEPT !.tol = "1/1000", !.cast = TRUE] /\ Ck("no throw", ~R.thrown) = TRUE /\ Adv
(* one evaluation *)
Row(v) == IF Len(v) = 0 THEN <<>> ELSE v
J == LET n == Total(Active(S.it)) IN SubSeq(R.J, 1, n)
Lib == [M |-> R.M, nle |-> R.nle, J |-> J, a0 |-> IF S.k = "cf" THEN SubSeq(R.a0, 1, Len(J)) ELSE <<>>]
Lam == Stacked(S.it, R.f, Len(S.it))
Cut(v, k, n) == SubSeq(v, k, k + n - 1)
Near(name, a, b) == Ck(name, Len(a) = Len(b) /\ VClose(a, b, Tol))
\* the blocks of forces among the inputs (ci)
UF(i) == Cut(R.in.u, Nv + First(S.it, TRUE, i), NcOf(S.it[i].c))
RECURSIVE UFon(_, _)
UFon(all, i) == IF i = 0 THEN <<>> ELSE UFon(all, i - 1) \o (IF S.it[i].on THEN UF(i) ELSE IF all THEN VZero(NcOf(S.it[i].c)) ELSE <<>>)
Dynamics ==
  CASE S.k = "ff" -> LET tau == Torque(S, X, W, R.in.u) IN Ck("equations of motion", Moves(S, Lib, tau, R.y, <<>>, Tol))
    [] S.k = "cf" -> LET tau == Torque(S, X, W, R.in.u) IN Ck("equations of motion in contact", Moves(S, Lib, tau, R.y, Lam, Tol)) /\ Ck("contacts held", Holds(S, Lib, R.y, Lam, Tol))
    [] S.k = "fi" -> Near("acceleration is the input", R.y, R.in.u)
    [] S.k = "ci" -> Near("acceleration is the input", R.y, SubSeq(R.in.u, 1, Nv))
    [] OTHER -> Near("configuration unchanged", SubSeq(R.y, 1, Nq), X) /\ Ck("impact", Strikes(S, Lib, W, SubSeq(R.y, Nq + 1, Nq + Nv), Lam, Tol))
ForceOf(i) == IF S.k = "ci" THEN Spread6(S.it[i].c, UF(i)) ELSE IF S.it[i].on THEN Spread6(S.it[i].c, PickF(S.it[i].c, R.f[i])) ELSE VZero(6)
NeedI == Needed(S, [Lib EXCEPT !.J = R.J], SubSeq(R.in.u, 1, Nv), IF S.k = "ci" THEN UFon(TRUE, Len(S.it)) ELSE <<>>)
Joint == CASE S.k \in {"ff", "cf"} -> Near("joint accelerations", R.ja, R.y) /\ Near("joint torques", R.jt, R.in.u)
           [] S.k \in {"fi", "ci"} -> Near("joint accelerations", R.ja, R.y) /\ Near("joint torques", R.jt, Sel(NeedI, Acted(S)))
           [] OTHER -> TRUE
\* residuals of costs and constraints whose value follows from what is recorded
Res(c) ==
  CASE c.r = "u" -> VSub(R.in.u, c.ref) [] c.r = "acc" -> VSub(R.ja, c.ref) [] c.r = "tau" -> VSub(R.jt, c.ref)
    [] c.r = "pos" -> VSub(R.fr[c.fr].p, c.ref)
    [] c.r = "vel" -> LET F == R.fr[c.fr] v == IF c.ty = "L" THEN F.v ELSE Rot6(M3(F.R), F.v) IN VSub(IF c.ty = "W" THEN VAdd(Lin(v), Cross(F.p, Ang(v))) \o Ang(v) ELSE v, c.ref)
    [] c.r = "fc" -> LET i == Force(S, c) IN PickF(S.it[i].c, VSub(R.f[i], c.ref))
    [] c.r = "x" -> VSub(R.in.x, c.ref) [] c.r = "mom" -> VSub(R.hg, c.ref) [] c.r = "com" -> VSub(R.com, c.ref)
    [] OTHER -> <<>>
Known(c) == c.r \in {"u", "acc", "tau", "pos", "vel", "fc", "mom", "com"} \/ (c.r = "x" /\ Nq = Nv)
\* at the end, costs of the inputs alone do not count
Inputs(c) == c.r = "u" \/ (c.r = "tau" /\ S.k \in {"ff", "cf"}) \/ (c.r = "fc" /\ S.k = "ci")
RECURSIVE SumCost(_, _)
SumCost(run, i) == IF i = 0 THEN "0" ELSE RAdd(SumCost(run, i - 1), IF ~run /\ Inputs(S.costs[i]) THEN "0" ELSE RMul(RDiv(S.costs[i].w, "2"), VDot(R.rs[i], R.rs[i])))
Costs(run) == /\ Ck("residuals", Len(R.rs) = Len(S.costs))
              /\ \A i \in 1..Len(S.costs) : (IF Known(S.costs[i]) /\ (run \/ S.costs[i].r \in {"x", "pos", "vel", "com"}) THEN Near("residual " \o S.costs[i].r, R.rs[i], Res(S.costs[i])) ELSE Ck("residual size", Len(R.rs[i]) = NrOf(S, S.costs[i])))
              /\ Ck("cost", RClose(R.cost, SumCost(run, Len(S.costs)), Tol))
RECURSIVE Conts(_)
Conts(i) == IF i = 0 THEN <<>> ELSE Conts(i - 1) \o (IF S.it[i].on THEN Cut(R.a0, First(S.it, TRUE, i), NcOf(S.it[i].c)) ELSE UF(i))
RECURSIVE UserRows(_, _)
\* rows of user constraints: those known; the others keep what is reported (rep)
UserRows(cs, rep) == IF cs = <<>> THEN <<>>
                     ELSE LET n == NrOf(S, cs[1]) IN (IF Known(cs[1]) THEN Res(cs[1]) ELSE SubSeq(rep, 1, n)) \o UserRows(Tail(cs), SubSeq(rep, n + 1, Len(rep)))
Constraints ==
  LET own == IF S.k = "ci" THEN Conts(Len(S.it)) ELSE <<>>
      tau == IF S.k \in {"fi", "ci"} THEN Sel(NeedI, Free(S)) ELSE <<>>
      nu == SumNr(S, Eqs(S)) IN
  /\ Ck("equalities", R.nh = Len(own) + nu + Len(tau) /\ R.ng = SumNr(S, Ineqs(S)))
  /\ Near("equality values", Cut(R.h, 1, R.nh), own \o UserRows(Eqs(S), Cut(R.h, Len(own) + 1, nu)) \o tau)
  /\ Near("inequality values", Cut(R.g, 1, R.ng), UserRows(Ineqs(S), Cut(R.g, 1, R.ng)))
\* forward dynamics of a free robot have no derivative of the momentum
Momentum == S.k = "ff" /\ \E i \in 1..Len(S.costs) : S.costs[i].r = "mom"
\* away from half a turn, where the logarithm of a rotation jumps
Turned(w) == RLt(VDot(w, w), "48/5")
Smooth == \A i \in 1..Len(S.costs) : LET c == S.costs[i] r == R.rs[i] IN CASE c.r = "rot" -> Turned(r) [] c.r = "pla" \/ (c.r = "x" /\ Nq > Nv) -> Turned(SubSeq(r, 4, 6)) [] OTHER -> TRUE
\* rows of user constraints on the state of a free robot
RECURSIVE SmoothU(_, _)
SmoothU(cs, rep) == IF cs = <<>> THEN TRUE
                    ELSE LET n == NrOf(S, cs[1]) IN (cs[1].r = "x" /\ Nq > Nv => Turned(SubSeq(rep, 4, 6))) /\ SmoothU(Tail(cs), SubSeq(rep, n + 1, Len(rep)))
\* no 6d contact near half a turn from its reference placement
Upright == \A i \in 1..Len(S.it) : S.it[i].on /\ S.it[i].c.k = "6d" /\ S.k \in {"cf", "ci"} => RLt("-99/100", VDot(S.it[i].c.Rr, R.fr[S.it[i].c.fr].R))
NOwn == IF S.k = "ci" /\ R.op = "eval" THEN Total(S.it) ELSE 0
HeadAll(s, n) == [j \in 1..4 |-> SubSeq(s[j], 1, n)]
Grad(name, d, s) == Ck(name, VClose(d, Slope(s), DTol))
Derivs(run) ==
  /\ (IF ~run THEN TRUE ELSE IF S.k = "im" THEN Grad("derivative of the state", R.dy, R.ys) ELSE Grad("derivative of the acceleration", R.dy, R.ys))
  /\ (Smooth /\ ~Momentum => Grad("derivative of the cost", <<R.dc>>, R.cs))
  /\ (IF SmoothU(Eqs(S), Cut(R.h, NOwn + 1, SumNr(S, Eqs(S)))) THEN Grad("derivative of equalities", SubSeq(R.dh, 1, Len(R.hs[1])), R.hs) ELSE TRUE)
  /\ (IF SmoothU(Ineqs(S), R.g) THEN Grad("derivative of inequalities", SubSeq(R.dg, 1, Len(R.gs[1])), R.gs) ELSE TRUE)
ForceDerivs == \A i \in 1..Len(S.it) : Grad("derivative of the force", R.fs[i].d, [j \in 1..4 |-> PickF(S.it[i].c, R.fs[i].s[j])])
TEval == /\ Is("eval")
         /\ (/\ Ck("evaluates", ~R.thrown) /\ Dynamics /\ Joint
             /\ Ck("forces", Len(R.f) = (IF S.k \in Has6 THEN Len(S.it) ELSE 0) /\ \A i \in 1..Len(R.f) : VClose(R.f[i], ForceOf(i), Tol))
             /\ Costs(TRUE) /\ Constraints /\ (Upright => Derivs(TRUE))
             /\ (IF ~Upright THEN TRUE ELSE IF S.k = "ci" \/ (S.k \in Has6 /\ S.force) THEN ForceDerivs ELSE TRUE)) = TRUE
         /\ UNCHANGED S /\ Adv
TTerm == /\ Is("term")
         /\ (Ck("evaluates", ~R.thrown) /\ Costs(FALSE) /\ (R.in.grad => Derivs(FALSE))) = TRUE
         /\ UNCHANGED S /\ Adv
TQuasi == /\ Is("quasi")
          /\ (IF S.k = "im" THEN Ck("untouched", ~R.thrown /\ \A i \in 1..Len(R.u) : REq(R.u[i], "7"))
              ELSE IF S.k = "fi" THEN Ck("no acceleration", ~R.thrown /\ VEq(R.u, VZero(R.in.nu)))
              ELSE IF R.in.nu # NuM(S) THEN Ck("wrong size rejected", R.thrown)
              ELSE LET A == StillA(S, SubSeq(R.J, 1, Total(Active(S.it)))) z == Still(A, R.w) n == NActed(S) IN
                   /\ Ck("solves", ~R.thrown) /\ Ck("certificate", IsStill(A, R.gr, R.w, "1/100000000"))
                   /\ (IF S.k # "ci" THEN Near("quasi-static inputs", R.u, SubSeq(z, 1, n))
                       ELSE Near("quasi-static accelerations and forces", R.u,
                              LET RECURSIVE Put(_) Put(i) == IF i = 0 THEN VZero(Nv) ELSE Put(i - 1) \o (IF S.it[i].on THEN Cut(z, n + First(S.it, FALSE, i), NcOf(S.it[i].c)) ELSE VZero(NcOf(S.it[i].c))) IN Put(Len(S.it))))) = TRUE
          /\ UNCHANGED S /\ Adv
TBad == Is("bad") /\ Ck("wrong size rejected: " \o R.in.w, R.thrown) = TRUE /\ UNCHANGED S /\ Adv
TraceNext == TNew \/ TCon \/ TCost \/ TUser \/ TMake \/ TData \/ TStatus \/ TArm \/ TMu \/ TRc \/ TCast \/ TEval \/ TTerm \/ TQuasi \/ TBad
TraceSpec == TraceInit /\ [][TraceNext]_<<S, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
