------------------------------ MODULE GaitTrace ------------------------------
EXTENDS Gait, Json, IOUtils, TLC
VARIABLES S, l \* first: no walk yet; nodes: the last nodes made
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, b) == IF b THEN TRUE ELSE PrintT(<<"CK", name, R.op>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/100000000000"
TraceInit == S = <<>> /\ l = 1
Nv == S.nv
Name(f) == S.names[f]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Same(c, e) == /\ c.on /\ c.type /\ c.n = e.n /\ c.k = e.k /\ c.f = e.f /\ RClose(c.w, e.w, Tol) /\ Len(c.ref) = Len(e.ref) /\ VClose(c.ref, e.ref, Tol)
              /\ Len(c.wt) = Len(e.wt) /\ VClose(c.wt, e.wt, Tol)
\* a node asks what the specification says
Asks(r, d, stand) ==
  LET E == CostsOf(d, stand, Nv, Name) IN
  /\ Ck("kind of node", r.t = IF d.t = "touch" THEN "touch" ELSE "swing")
  /\ Ck("time it lasts, no bounce", RClose(r.dt, d.dt, Tol))
  /\ Ck("inputs", r.nu = IF d.t = "touch" THEN 0 ELSE Nv - 6)
  /\ Ck("feet that stand", Len(r.con) = Len(d.on) /\ {c.f : c \in SetOf(r.con)} = SetOf(d.on))
  /\ Ck("how they stand", \A c \in SetOf(r.con) : /\ c.on /\ c.ty = "A" /\ c.n = Name(c.f) \o (IF d.t = "touch" THEN "_impulse" ELSE "_contact")
                                                  /\ (IF d.t = "touch" THEN TRUE ELSE VEq(c.g, <<"0", "50">>) /\ VEq(c.ref, <<"0", "0", "0">>)))
  /\ Ck("tasks", Len(r.costs) = Cardinality(E) /\ \A e \in E : Ck(e.n, \E c \in SetOf(r.costs) : Same(c, e)))
All(ns) == /\ Ck("number of nodes", Len(R.nodes) = Len(ns)) /\ \A k \in 1..Len(ns) : Asks(R.nodes[k], ns[k], S.stand)
Default == R.def = S.stand \o Fill(Nv, "0") \/ VClose(R.def, S.stand \o Fill(Nv, "0"), Tol)
To(ns) == /\ (Ck("no throw", ~R.thrown) /\ Ck("default state", Default) /\ All(ns)) = TRUE /\ S' = [S EXCEPT !.nodes = ns] /\ Adv
TNew == /\ Is("new") /\ Ck("no throw", ~R.thrown) = TRUE
        /\ S' = [first |-> TRUE, nodes |-> <<>>, stand |-> R.in.stand, nv |-> R.nv, names |-> R.names] /\ Ck("default state", VClose(R.def, R.in.stand \o Fill(R.nv, "0"), Tol)) = TRUE /\ Adv
TWalk == /\ Is("walk") /\ Ck("no throw", ~R.thrown) = TRUE
         /\ \E w \in {TLCEval(Walk(S.first, R.feet, R.cz, R.in.len, R.in.h, R.in.dt, R.in.n, R.in.ns))} :
            /\ (Ck("default state", Default) /\ Ck("initial state", VClose(R.x0, R.in.x0, Tol)) /\ Ck("horizon", R.T = Len(w)) /\ All(Append(w, w[Len(w)]))) = TRUE
            /\ S' = [S EXCEPT !.nodes = Append(w, w[Len(w)]), !.first = FALSE]
         /\ Adv
TStep == /\ Is("step") /\ Ck("no throw", ~R.thrown) = TRUE
         /\ \E s \in {TLCEval(Step(R.in.on, R.in.sw, R.in.com, R.in.pos, R.in.len, R.in.h, R.in.dt, R.in.n))} :
            /\ (Ck("center of mass after the step", VClose(R.com, s.com, Tol)) /\ Ck("feet after the step", \A i \in 1..Len(s.pos) : VClose(R.pos[i], s.pos[i], Tol))) = TRUE
            /\ To(s.nodes)
Finite(v) == \A i \in 1..Len(v) : v[i] # "inf"
TSwing == Is("swing") /\ To(<<SwingNode(R.in.on, IF R.in.short THEN <<>> ELSE R.in.sw, IF R.in.short THEN <<>> ELSE R.in.ref, IF ~R.in.short /\ Finite(R.in.com) THEN R.in.com ELSE <<>>, R.in.dt)>>)
TSwitch == Is("switch") /\ To(<<TouchNode(R.in.on, R.in.sw, R.in.ref, ~R.in.short /\ R.in.pseudo)>>)
(* what a node costs at a state *)
Half(v) == RMul("1/2", VDot(v, v))
RECURSIVE WSum(_, _, _)
WSum(w, v, i) == IF i > Len(v) THEN "0" ELSE RAdd(RMul(w[i], RMul(v[i], v[i])), WSum(w, v, i + 1))
Value(e) == CASE e.k = "com" -> Half(VSub(R.com, e.ref)) [] e.k = "pos" -> Half(VSub(R.feet[e.f], e.ref)) [] e.k = "vel" -> Half(R.fv[e.f])
              [] e.k = "x" -> RMul("1/2", WSum(e.wt, R.dx, 1)) [] OTHER -> Half(R.in.u)
RECURSIVE Total(_)
Total(E) == IF E = {} THEN "0" ELSE LET e == CHOOSE e \in E : TRUE IN RAdd(RMul(e.w, Value(e)), Total(E \ {e}))
TLook == /\ Is("look") /\ Ck("no throw", ~R.thrown) = TRUE
         /\ \E E \in {TLCEval(CostsOf(S.nodes[R.k], S.stand, Nv, Name))} :
            (/\ Ck("costs there", Len(R.cs) = Cardinality(E))
             /\ \A e \in E : Ck(e.n, \E c \in SetOf(R.cs) : c.n = e.n /\ RClose(c.c, Value(e), "1/10000000"))
             /\ Ck("what it costs", RClose(R.cost, Total(E), "1/1000000"))) = TRUE
         /\ UNCHANGED S /\ Adv
TraceNext == TNew \/ TWalk \/ TStep \/ TSwing \/ TSwitch \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_<<S, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
