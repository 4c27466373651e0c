----------------------------- MODULE ConesTrace ------------------------------
(* Recorded histories of real cones: R.in the operation, R.s the cones (all four slots) after it, R.f and R.b the converted cone and its way back. *)
EXTENDS Cones, TLC, Json, IOUtils
VARIABLES S, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/100000000000"
NearRow(a, b, tol) == IF b = <<>> THEN TRUE ELSE VClose(a, b, tol)
\* numbers or infinities
Same(a, b, tol) == IF RIsNum(b) THEN RIsNum(a) /\ RClose(a, b, tol) ELSE a = b
SameV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Same(a[i], b[i], tol)
Params(o, p, tol) ==
  /\ Ck("orientation", MClose(o.R, p.R, tol))
  /\ (IF p.kind = "cop" THEN TRUE
      ELSE /\ Ck("friction coefficient", Same(o.mu, p.mu, tol)) /\ Ck("facets", o.nf = p.nf) /\ Ck("approximation", o.inner = p.inner)
           /\ Ck("force limits", Same(o.min, p.min, tol) /\ Same(o.max, p.max, tol)))
  /\ (IF p.kind = "friction" THEN TRUE ELSE Ck("box", SameV(o.box, p.box, tol)))
RowsAre(o, c, tol) ==
  /\ Ck("number of rows", Len(o.A) = Len(c.A) /\ Len(o.lb) = Len(c.A) /\ Len(o.ub) = Len(c.A))
  /\ Ck("rows", \A r \in 1..Len(c.A) : NearRow(o.A[r], c.A[r], tol))
  /\ Ck("lower bounds", SameV(o.lb, c.lb, tol)) /\ Ck("upper bounds", SameV(o.ub, c.ub, tol))
Reports(o, c) == o.kind = c.p.kind /\ Params(o, c.p, Tol) /\ RowsAre(o, c, Tol)
Shown == (\A d \in 1..4 : IF S'[d] = <<>> THEN R.s[d].kind = "none" ELSE Reports(R.s[d], S'[d])) = TRUE
Put(d, c) == S' = [S EXCEPT ![d] = c]
Step(d, c) == Put(d, c) /\ Shown /\ Adv
TraceInit == S = [d \in 1..4 |-> <<>>] /\ l = 1
TNew == Is("new") /\ LET a == R.in IN Step(a.d, Updated(Made(a.kind, a.R, a.mu, a.nf, IF a.kind = "wrench" /\ a.old THEN TRUE ELSE a.inner, a.min, a.max, a.box)))
TNewD == Is("newd") /\ Step(R.in.d, Updated(Default(R.in.kind)))
\* a setting has no effect on the rows before the next update
TSet == Is("set") /\ LET a == R.in IN Step(a.d, [S[a.d] EXCEPT !.p = Changed(S[a.d].p, a.f, a.v)])
TUpdate == Is("update") /\ Step(R.in.d, Updated(S[R.in.d].p))
TCopy == (Is("copy") \/ Is("assign")) /\ Step(R.in.d, S[R.in.s])
\* the support region of a wrench cone, as it stands
TCop == Is("cop") /\ LET w == S[R.in.s] n == w.p.nf IN
        Step(R.in.d, [p |-> [w.p EXCEPT !.kind = "cop"], A |-> SubSeq(w.A, n + 2, n + 5), lb |-> SubSeq(w.lb, n + 2, n + 5), ub |-> SubSeq(w.ub, n + 2, n + 5)])
TWUpd == Is("wupd") /\ LET a == R.in p == S[R.in.d].p IN Step(a.d, Updated(Made("wrench", a.R, a.mu, p.nf, p.inner, a.min, a.max, a.box)))
\* a normal determines the orientation up to a turn about it
Unit(n) == VScale(RDiv("1", RFun("sqrt", VDot(n, n))), n)
Stands(o, n) == Ck("orientation has the normal", VClose(Col(o.R, 3), Unit(n), Tol) /\ VClose(o.nsurf, Unit(n), Tol) /\ MClose(MMul(MT(o.R), o.R), Id3, Tol)
                                                  /\ VClose(<<RSub(RMul(o.R[2][1], o.R[3][2]), RMul(o.R[3][1], o.R[2][2])), RSub(RMul(o.R[3][1], o.R[1][2]), RMul(o.R[1][1], o.R[3][2])), RSub(RMul(o.R[1][1], o.R[2][2]), RMul(o.R[2][1], o.R[1][2]))>>, Col(o.R, 3), Tol))
TFUpd == Is("fupd") /\ LET a == R.in p == S[R.in.d].p IN
         Stands(R.s[a.d], a.n) = TRUE /\ Step(a.d, Updated(Made("friction", R.s[a.d].R, a.mu, p.nf, a.inner, a.min, a.max, p.box)))
TNsurf == Is("nsurf") /\ LET a == R.in IN Stands(R.s[a.d], a.n) = TRUE /\ Step(a.d, [S[a.d] EXCEPT !.p.R = R.s[a.d].R])
Fl == "1/200000"
TCast == Is("cast") /\ UNCHANGED S /\ Shown
         /\ (LET p == S[R.in.d].p q == Cast(p) IN
             /\ Ck("converted", R.f.kind = p.kind /\ Params(R.f, q, Tol) /\ RowsAre(R.f, Updated(q), Fl))
             /\ Ck("converted back", R.b.kind = p.kind /\ Params(R.b, q, Tol) /\ RowsAre(R.b, Updated(q), Tol))) = TRUE
         /\ Adv
TraceNext == TNew \/ TNewD \/ TSet \/ TUpdate \/ TCopy \/ TCop \/ TWUpd \/ TFUpd \/ TNsurf \/ TCast
TraceSpec == TraceInit /\ [][TraceNext]_<<S, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
