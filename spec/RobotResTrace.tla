----------------------------- MODULE RobotResTrace -----------------------------
EXTENDS RobotRes, Json, IOUtils
VARIABLES S, l \* the residual
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name, S.k>>) /\ FALSE
Adv == l' = l + 1
Tol == S.tol
DTol == IF S.cast THEN "1/1000" ELSE "1/100000"
Jk == S.rb.jk
Nv == SNv(Jk)
Nq == SNq(Jk)
TraceInit == S = <<>> /\ l = 1
TNew == Is("new") /\ S' = [rb |-> R.in, k |-> R.in.k, imp |-> R.in.imp, fwd |-> R.in.fwd, it |-> <<>>, made |-> FALSE, tol |-> "1/100000000", cast |-> FALSE, fr |-> 0, ty |-> "", nf |-> 0, nc |-> 0, ref |-> <<>>, nu |-> 0, ds |-> <<>>]
        /\ Adv
TCon == Is("con") /\ S' = [S EXCEPT !.it = Add(S.it, [id |-> R.in.id, c |-> R.in, on |-> TRUE])] /\ Ck("no throw", ~R.thrown) = TRUE /\ Adv
HasGetter == S.k \in {"x", "mom", "com", "pos", "rot", "pla", "vel", "fc"}
\* what the residual says of itself
Says(m) == /\ Ck("dimension", R.nr = NrOf(m)) /\ Ck("inputs", R.nu = m.nu) /\ Ck("forces from the dynamics or from the inputs", R.forward = (m.k \in ForceKinds => m.fwd))
           /\ (IF HasGetter THEN Ck("reference", Len(R.ref) = Len(m.ref) /\ VClose(R.ref, m.ref, IF m.cast THEN "1/100000" ELSE "1/1000000000000")) ELSE TRUE)
TMake == /\ Is("make")
         /\ LET m == [S EXCEPT !.made = TRUE, !.fr = R.in.fr, !.ty = R.in.ty, !.nf = R.in.nf, !.nc = R.in.nc, !.ref = R.in.ref, !.nu = IF S.k = "dvc" THEN 0 ELSE R.in.nu, !.fwd = R.in.fwd] IN
            /\ Ck("made exactly if its arguments fit", R.thrown = R.in.bad) = TRUE
            /\ (IF R.in.bad THEN TRUE ELSE Says(m)) = TRUE
            /\ S' = (IF R.in.bad THEN S ELSE m)
         /\ Adv
Put(s, d, x) == SelectSeq(s, LAMBDA e : e.d # d) \o <<[d |-> d, du |-> x]>>
TData == /\ Is("data") /\ LET ok == CanRead(S, R.in.plain) IN
            /\ Ck("data exactly of what it reads", R.thrown = ~ok) = TRUE
            /\ S' = (IF ok THEN [S EXCEPT !.ds = Put(S.ds, R.in.d, R.in.du)] ELSE S)
         /\ Adv
TRef == /\ Is("ref") /\ LET m == IF R.in.bad THEN S ELSE [S EXCEPT !.ref = R.in.ref] IN
           /\ Ck("reference accepted exactly if it fits", R.thrown = R.in.bad) = TRUE /\ (IF R.thrown THEN TRUE ELSE Says(m)) = TRUE /\ S' = m
        /\ Adv
TId == Is("id") /\ Ck("no throw", ~R.thrown) = TRUE /\ S' = [S EXCEPT !.fr = R.in.fr] /\ Adv
TType == Is("type") /\ Ck("no throw", ~R.thrown) = TRUE /\ S' = [S EXCEPT !.ty = R.in.ty] /\ Adv
TCast == Is("cast") /\ LET m == [S EXCEPT !.tol = "1/1000", !.cast = TRUE, !.ds = <<>>] IN Ck("no throw", ~R.thrown) = TRUE /\ Says(m) = TRUE /\ S' = m /\ Adv
(* one evaluation *)
Near(name, a, b) == Ck(name, Len(a) = Len(b) /\ VClose(a, b, Tol))
NearM(name, a, b) == Ck(name, Len(a) = Len(b) /\ (\A i \in 1..Len(a) : Len(a[i]) = Len(b[i])) /\ MClose(a, b, Tol))
F == R.fr[S.fr]
Ri == Reads(S)
Ci == S.it[Ri].c
Fo == SubSeq(R.in.f, 6 * (Ri - 1) + 1, 6 * Ri)
\* the rows of what contact Ri says of its force
RowsI(A) == SubSeq(A, First(S.it, TRUE, Ri), First(S.it, TRUE, Ri) + NcOf(Ci) - 1)
Run == R.op = "eval"
Value ==
  CASE S.k = "x" -> Ck("state from the reference", IsDiff(Jk, S.ref, R.in.x, R.r, Tol))
    [] S.k = "pos" -> Near("position", R.r, VSub(F.p, S.ref))
    [] S.k = "rot" -> Ck("rotation from the reference", IsLog3(R.r, FromTo(M3(S.ref), M3(F.R)), Tol))
    [] S.k = "pla" -> LET Q == M3(S.ref) IN Ck("placement from the reference", IsLog3(Ang(R.r), FromTo(Q, M3(F.R)), Tol) /\ VClose(Carry(Lin(R.r), Ang(R.r)), MV(MT(Q), VSub(F.p, SubSeq(S.ref, 10, 12))), Tol))
    [] S.k = "vel" -> Near("velocity", R.r, VSub(Velocity(S.ty, F), S.ref))
    [] S.k = "com" -> Near("center of mass", R.r, VSub(R.com, S.ref))
    [] S.k = "mom" -> Near("momentum", R.r, VSub(R.hg, S.ref))
    [] S.k \in {"grav", "cgrav"} -> Near("torques against gravity", R.r, IF Run THEN VSub(R.tau, R.g) ELSE VScale("-1", R.g))
    [] S.k = "dvc" -> Near("change of the velocity of the center of mass", R.r, MV(R.Jcom, VSub(R.in.vn, SubSeq(R.in.x, Nq + 1, Nq + Nv))))
    [] ~Run -> Ck("no force at the end", VEq(R.r, VZero(Len(R.r))))
    [] S.k = "fc" -> Near("force from the reference", R.r, PickF(Ci, VSub(Fo, S.ref)))
    [] S.k = "fcone" -> Near("force in its cone", R.r, MV(R.A, Lin(Fo)))
    [] OTHER -> Near("wrench in its cone", R.r, MV(R.A, Fo))
ForceDeriv(D) == IF S.k = "fc" THEN D ELSE Onto(Ci, R.A, D)
ZeroM(M) == \A i \in 1..Len(M) : VEq(M[i], VZero(Len(M[i])))
DuOf == (CHOOSE i \in 1..Len(S.ds) : S.ds[i].d = R.in.d)
Forces ==
  IF ~Run THEN Ck("no derivative of forces at the end", ZeroM(R.Rx))
  ELSE /\ (IF S.fwd THEN NearM("derivative of the force by the state", R.Rx, ForceDeriv(RowsI(R.in.dx))) ELSE Ck("forces are inputs", ZeroM(R.Rx)))
       /\ (IF S.nu = 0 THEN Ck("no inputs", \A i \in 1..Len(R.Ru) : Len(R.Ru[i]) = 0)
           ELSE NearM("derivative of the force by the inputs", R.Ru, ForceDeriv(RowsI(IF S.fwd THEN R.in.du ELSE S.ds[DuOf].du))))
Away(w) == RLt(VDot(w, w), "48/5")
Smooth == CASE S.k = "rot" -> Away(R.r) [] S.k = "pla" -> Away(Ang(R.r)) [] S.k = "x" /\ Nq > Nv -> Away(SubSeq(R.r, 4, 6)) [] OTHER -> TRUE
Motion == IF ~Smooth THEN TRUE
          ELSE LET a == MV(R.Rx, R.in.e) IN
               Ck("derivative", VClose(IF Run /\ S.nu > 0 THEN VAdd(a, MV(R.Ru, R.in.eu)) ELSE a, Slope(R.rs), DTol))
Part(M, a, b) == [i \in 1..Len(M) |-> SubSeq(M[i], a, b)]
Declared == /\ Ck("declares what it depends on", (QDep(S) => R.qd) /\ (VDep(S) => R.vd) /\ (UDep(S) => R.ud))
            /\ Ck("nothing of a part not declared", (R.qd \/ ZeroM(Part(R.Rx, 1, Nv))) /\ (R.vd \/ ZeroM(Part(R.Rx, Nv + 1, 2 * Nv))) /\ (R.ud \/ ~Run \/ ZeroM(R.Ru)))
W == R.in.w
Lr == VMulE(W, R.r)
NoState == ~Run /\ ~R.qd /\ ~R.vd
Cost == IF NoState THEN Ck("no cost of inputs at the end", REq(R.cost, "0") /\ VEq(R.Lx, VZero(2 * Nv)) /\ ZeroM(R.Lxx))
        ELSE /\ Ck("cost", RClose(R.cost, GnCost(W, R.r), Tol))
             /\ Near("gradient by the state", R.Lx, MTV(R.Rx, Lr, 2 * Nv)) /\ NearM("Hessian by the state", R.Lxx, Gn(R.Rx, W, R.Rx))
             /\ (IF ~Run \/ S.nu = 0 THEN TRUE
                 ELSE Near("gradient by the inputs", R.Lu, MTV(R.Ru, Lr, S.nu)) /\ NearM("Hessian by the inputs", R.Luu, Gn(R.Ru, W, R.Ru)) /\ NearM("mixed Hessian", R.Lxu, Gn(R.Rx, W, R.Ru)))
TEval == /\ (Is("eval") \/ Is("term"))
         /\ (/\ Ck("evaluates", ~R.thrown) /\ Says(S)
             /\ (IF NoState THEN Ck("only forces have no state", S.k \in ForceKinds) ELSE Ck("size", Len(R.r) = NrOf(S)) /\ Value /\ (IF S.k \in ForceKinds THEN Forces ELSE Motion) /\ Declared)
             /\ Cost) = TRUE
         /\ UNCHANGED S /\ Adv
TraceNext == TNew \/ TCon \/ TMake \/ TData \/ TRef \/ TId \/ TType \/ TCast \/ TEval
TraceSpec == TraceInit /\ [][TraceNext]_<<S, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
