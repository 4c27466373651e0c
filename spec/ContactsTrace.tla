----------------------------- MODULE ContactsTrace ----------------------------
EXTENDS Contacts, Json, IOUtils
VARIABLES S, l \* the robot, the stack, the slots
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/10000000000"
Nv == SNv(S.rb.jk)
Col(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
Report ==
  LET s == S'.it m == R.m IN
  (/\ Ck("active dimension", m.nc = Total(Active(s))) /\ Ck("total dimension", m.total = Total(s))
   /\ Ck("inputs", S'.con => m.nu = S'.nu) /\ Ck("all", m.all = S'.all)
   /\ Ck("active set", m.on = Col(Active(s), LAMBDA x : x.n)) /\ Ck("inactive set", m.off = Col(SelectSeq(s, LAMBDA x : ~x.on), LAMBDA x : x.n))
   /\ Ck("items", m.items = Col(s, LAMBDA x : [n |-> x.n, on |-> x.on, st |-> x.on, nc |-> NcOf(x.c)])) /\ Ck("unknown item", ~m.nobody)) = TRUE
TraceInit == S = <<>> /\ l = 1
TNew == Is("new") /\ S' = [rb |-> R.in, con |-> R.in.what = "con", nu |-> R.in.nu, all |-> FALSE, it |-> <<>>, ds |-> <<>>, b |-> 1, ev |-> <<>>, tol |-> Tol] /\ Ck("made", ~R.thrown) = TRUE /\ Report /\ Adv
TAdd == /\ Is("add")
        /\ LET ok == ~S.con \/ R.in.nu = S.nu IN
           /\ Ck("accepted exactly with its inputs", R.thrown = ~ok) = TRUE
           /\ S' = [S EXCEPT !.it = IF ok THEN Add(S.it, [id |-> R.in.id, n |-> R.in.n, c |-> R.in, on |-> R.in.on, b |-> S.b]) ELSE S.it, !.b = S.b + 1]
        /\ Report /\ Adv
TRemove == Is("remove") /\ S' = [S EXCEPT !.it = Remove(S.it, R.in.id)] /\ Ck("no throw", ~R.thrown) = TRUE /\ Report /\ Adv
TStatus == Is("status") /\ S' = [S EXCEPT !.it = Turn(S.it, R.in.id, R.in.on)] /\ Ck("no throw", ~R.thrown) = TRUE /\ Report /\ Adv
TAll == Is("all") /\ S' = [S EXCEPT !.all = R.in.on] /\ Report /\ Adv
TData == Is("data") /\ S' = [S EXCEPT !.ds = (R.in.d :> Births(S.it)) @@ S.ds] /\ Report /\ Adv
TCast == Is("cast") /\ S' = [S EXCEPT !.ds = <<>>, !.tol = "1/100000"] /\ Ck("no throw", ~R.thrown) = TRUE /\ Report /\ Adv
F(x) == R.fr[x.c.fr]
Cut(v, k, n) == SubSeq(v, k, k + n - 1)
Same(v, n, w) == VClose(Cut(v, n, Len(w)), w, S.tol)
Item(i) ==
  LET x == S.it[i] n == NcOf(x.c) k == First(S.it, S.all, i) IN
  IF x.on THEN
    /\ Ck("Jacobian " \o x.c.k, LET J == CJac(x.c, F(x)) IN \A r \in 1..n : VClose(R.Jc[k + r - 1], J[r], S.tol))
    /\ (IF S.con THEN Ck("drift " \o x.c.k, VClose(Cut(R.a0, k, n), Drift(x.c, F(x), R.lg[i]), S.tol)) ELSE TRUE)
  ELSE IF S.all THEN Ck("inactive rows are zero", \A r \in k..(k + n - 1) : VEq(R.Jc[r], VZero(Nv)) /\ REq(R.a0[r], "0") /\ VEq(R.dx[r], VZero(2 * Nv)))
  ELSE TRUE
Slopes == LET N == Rows(S.it, S.all) d == Slope([j \in 1..4 |-> SubSeq(R.f[j], 1, N)]) e == R.in.e
              g == MV(SubSeq(R.dx, 1, N), IF S.con THEN e ELSE SubSeq(e, 1, Nv))
              JV == IF S.con THEN VZero(N) ELSE MV(SubSeq(R.Jc, 1, N), SubSeq(e, Nv + 1, 2 * Nv)) \* the velocity's part for impulses
          IN \A i \in 1..Len(S.it) : LET x == S.it[i] n == NcOf(x.c) k == First(S.it, S.all, i) IN
             IF x.on /\ (x.c.k = "6d" /\ S.con => RLt(VDot(Ang(R.lg[i]), Ang(R.lg[i])), "48/5")) THEN Ck("derivative " \o x.c.k \o x.c.ty, VClose(VAdd(Cut(g, k, n), Cut(JV, k, n)), Cut(d, k, n), "1/1000000")) ELSE TRUE
TEval == /\ Is("eval")
         /\ LET ok == S.ds[R.in.d] = Births(S.it) N == Rows(S.it, S.all) IN
            /\ (IF ~ok THEN Ck("data of another size rejected", R.thrown)
                ELSE /\ Ck("evaluates", ~R.thrown) /\ Ck("rows", Len(R.Jc) = Total(S.it))
                     /\ (\A i \in 1..Len(S.it) : Item(i)) /\ (N > 0 => Slopes)) = TRUE
            /\ S' = [S EXCEPT !.ev = IF ok THEN [fr |-> R.fr] ELSE <<>>]
         /\ Report /\ Adv
ForceOf(f, i) == LET x == S.it[i] IN Cut(f, First(S.it, S.all, i), NcOf(x.c))
Fj(x) == S.rb.fj[x.c.fr]
RECURSIVE OnJoint(_, _, _)
OnJoint(f, j, i) ==
  IF i = 0 THEN VZero(6)
  ELSE LET x == S.it[i] IN
       IF x.on /\ Fj(x) = j THEN VAdd(OnJoint(f, j, i - 1), OnBody(x.c, S.ev.fr[x.c.fr], S.rb.fR[x.c.fr], S.rb.ft[x.c.fr], ForceOf(f, i))) ELSE OnJoint(f, j, i - 1)
TForce == /\ Is("force")
          /\ LET f == R.in.f N == Rows(S.it, S.all) IN
             (IF Len(f) # N THEN Ck("wrong size rejected", R.thrown)
              ELSE /\ Ck("forces taken", ~R.thrown)
                   /\ Ck("forces of the items", \A i \in 1..Len(S.it) : VClose(R.fi[i], IF S.it[i].on \/ (S.all /\ S.con) THEN Spread6(S.it[i].c, ForceOf(f, i)) ELSE VZero(6), Tol))
                   /\ Ck("no force on the world", VEq(R.fext[1], VZero(6)))
                   /\ Ck("forces on the bodies", \A j \in 1..Len(S.rb.jk) : VClose(R.fext[j + 1], OnJoint(f, j, Len(S.it)), S.tol))
                   /\ Ck("torques change with the frames", LET e == SubSeq(R.in.e, 1, Nv) IN VClose(VSub(MV(R.dt, e), MV([i \in 1..Nv |-> [j \in 1..Nv |-> "5"]], e)), VScale("-1", Slope(R.tc)), "1/1000000"))) = TRUE
          /\ UNCHANGED S /\ Report /\ Adv
TFDiff == /\ Is("fdiff")
          /\ LET N == Rows(S.it, S.all) dx == R.in.dx du == R.in.du
                 ok == Len(dx) = N /\ Len(dx[1]) = 2 * Nv /\ (S.con => Len(du) = N /\ Len(du[1]) = S.nu)
                 Blk(m, i, c) == IF S.it[i].on THEN Cut(m, First(S.it, S.all, i), NcOf(S.it[i].c)) ELSE [r \in 1..NcOf(S.it[i].c) |-> VZero(c)] IN
             (IF ~ok THEN Ck("wrong size rejected", R.thrown)
              ELSE Ck("derivatives of the items", ~R.thrown /\ \A i \in 1..Len(S.it) : MEq(R.dx[i], Blk(dx, i, 2 * Nv)) /\ (S.con => MEq(R.du[i], Blk(du, i, S.nu))))) = TRUE
          /\ UNCHANGED S /\ Report /\ Adv
TAcc == Is("acc") /\ (IF Len(R.in.v) = Nv THEN Ck("kept", ~R.thrown /\ VEq(R.v, R.in.v)) ELSE Ck("wrong size rejected", R.thrown)) = TRUE /\ UNCHANGED S /\ Report /\ Adv
TAccD == Is("accd") /\ (IF Len(R.in.m) = Nv /\ Len(R.in.m[1]) = 2 * Nv THEN Ck("kept", ~R.thrown /\ MEq(R.m2, R.in.m)) ELSE Ck("wrong size rejected", R.thrown)) = TRUE /\ UNCHANGED S /\ Report /\ Adv
TraceNext == TNew \/ TAdd \/ TRemove \/ TStatus \/ TAll \/ TData \/ TCast \/ TEval \/ TForce \/ TFDiff \/ TAcc \/ TAccD
TraceSpec == TraceInit /\ [][TraceNext]_<<S, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
