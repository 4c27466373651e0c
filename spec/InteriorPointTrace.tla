------------------------- MODULE InteriorPointTrace --------------------------
(***************************************************************************)
(* Recorded histories of the real interior-point interface: R.in the       *)
(* operation, R.xs and R.us the base it holds, R.v what a callback         *)
(* returned (sparse matrices filled in at their declared positions).       *)
(***************************************************************************)
EXTENDS InteriorPoint, Json, IOUtils
VARIABLES P, B, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Tol == "1/100000000"
Near(a, b) == Within(<<a>>, <<b>>, Tol)
FnOf(in, p) == [n |-> in[p \o "n"], i |-> in[p \o "i"], k |-> in[p \o "k"]]
NodeOf(in, p) == [nu |-> in[p \o "nu"], f |-> FnOf(in, p \o "f"), l |-> FnOf(in, p \o "l"), lb |-> in[p \o "lb"], ub |-> in[p \o "ub"]]
Str == <<"1", "2", "3", "4">>
Keeps == Ck("base states", Within(R.xs, B'.xs, Tol)) /\ Ck("base controls", Within(R.us, B'.us, Tol))
TraceInit == P = <<>> /\ B = <<>> /\ l = 1
TNew == /\ Is("new")
        /\ P' = [nice |-> R.in.nice, st |-> R.in.st, nx |-> R.in.nx, x0 |-> R.in.x0, nodes |-> [t \in 1..R.in.T |-> NodeOf(R.in, Str[t])], end |-> FnOf(R.in, "El")]
        /\ B' = Blank(P') /\ Keeps = TRUE /\ Adv
TSet == Is("set") /\ UNCHANGED P /\ B' = [xs |-> R.in.xs, us |-> R.in.us] /\ Keeps = TRUE /\ Adv
TX0 == Is("x0") /\ P' = [P EXCEPT !.x0 = R.in.x0] /\ UNCHANGED B /\ Keeps = TRUE /\ Adv
TSwap == Is("swap") /\ P' = [P EXCEPT !.nodes[R.in.t] = NodeOf(R.in, "N")] /\ B' = [xs |-> R.in.xs, us |-> R.in.us] /\ Keeps = TRUE /\ Adv
\* a limit the library reads as none
NoLow(a) == ~RIsNum(a) \/ RLe(a, "-10000000000000000000")
NoHigh(a) == ~RIsNum(a) \/ RLe("10000000000000000000", a)
LimOk(v, w, No(_)) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : IF RIsNum(w[i]) THEN RIsNum(v[i]) /\ REq(v[i], w[i]) ELSE No(v[i]) /\ v[i] # "nan"
Zeros(v, n) == Len(v) = n /\ \A i \in 1..n : RIsNum(v[i]) /\ REq(v[i], "0")
TEval == /\ Is("eval") /\ UNCHANGED <<P, B>>
         /\ (/\ Ck("sizes", R.n = NVar(P) /\ R.m = NCon(P) /\ R.nvar = NVar(P) /\ R.ncon = NCon(P)) /\ Ck("answers within its arrays", R.ok)
             /\ \A z \in {R.in.z} : \A w \in {R.in.what} :
                CASE w = "bounds" -> /\ Ck("limits of the variables", LimOk(R.xl, Low(P), NoLow) /\ LimOk(R.xu, High(P), NoHigh))
                                     /\ Ck("limits of the constraints", Zeros(R.gl, NCon(P)) /\ Zeros(R.gu, NCon(P)))
                  [] w = "start" -> Ck("starting point", Within(<<R.v>>, <<Start(P, B)>>, Tol))
                  [] w = "obj" -> Ck("objective", Near(<<R.v>>, <<Obj(P, B, z)>>))
                  [] w = "grad" -> Ck("gradient", Near(R.v, Grad(P, B, z)))
                  [] w \in {"con", "con2"} -> Ck("constraints", Near(R.v, Con(P, B, z)))
                  [] w \in {"jac", "jac2", "jac3"} -> Ck("Jacobian", Within(R.v, Jac(P, B, z), Tol))
                  [] w \in {"hess", "hess2"} -> Ck("Hessian", Within(R.v, Hess(P, B, z, R.in.s), Tol))) = TRUE
         /\ Keeps = TRUE /\ Adv
TFinal == /\ Is("final") /\ UNCHANGED P /\ B' = Traj(P, B, R.in.z)
          /\ Ck("cost of the solution", Near(<<R.cost>>, <<R.in.cost>>)) = TRUE
          /\ Keeps = TRUE /\ Adv
\* real solves: what they return
Zero0(p) == [i \in 1..NVar(p) |-> "0"]
At(p, b) == Cat([t \in 1..T(p) |-> VZero(N(p)) \o b.us[t]]) \o VZero(N(p))
SizeOf(p, b) == VSum([t \in 1..T(p) |-> RAdd(FSize(p.nodes[t].l, b.xs[t] \o b.us[t]), FSize(p.nodes[t].f, b.xs[t] \o b.us[t]))])
Nums(b) == (\A t \in 1..Len(b.xs) : \A i \in 1..Len(b.xs[t]) : RIsNum(b.xs[t][i])) /\ (\A t \in 1..Len(b.us) : \A i \in 1..Len(b.us[t]) : RIsNum(b.us[t][i]))
Shape(p, b) == Len(b.xs) = T(p) + 1 /\ Len(b.us) = T(p) /\ (\A t \in 1..Len(b.xs) : Len(b.xs[t]) = N(p)) /\ \A t \in 1..T(p) : Len(b.us[t]) = p.nodes[t].nu
Loose == "1/100000"
InLim(p, b) == \A t \in 1..T(p) : \A i \in 1..p.nodes[t].nu :
   /\ (IF RIsNum(p.nodes[t].lb[i]) THEN RLe(RSub(p.nodes[t].lb[i], Loose), b.us[t][i]) ELSE TRUE)
   /\ (IF RIsNum(p.nodes[t].ub[i]) THEN RLe(b.us[t][i], RAdd(p.nodes[t].ub[i], Loose)) ELSE TRUE)
\* slope of the cost to go in the states; the cost to go has no descent direction in the controls
RECURSIVE Slope(_, _, _)
Slope(p, b, t) == IF t = T(p) + 1 THEN InX(p.st, "l", p.end, b.xs[t], <<>>)[1]
  ELSE VAdd(InX(p.st, "l", p.nodes[t].l, b.xs[t], b.us[t])[1], MMul(<<Slope(p, b, t + 1)>>, InX(p.st, "f", p.nodes[t].f, b.xs[t], b.us[t]))[1])
Stationary(p, b) == \A t \in 1..T(p) : p.nodes[t].nu > 0 =>
  \A v \in {TLCEval(Slope(p, b, t + 1))} : \A q \in {TLCEval(VAdd(InU(p.st, "l", p.nodes[t].l, b.xs[t], b.us[t])[1], MMul(<<v>>, InU(p.st, "f", p.nodes[t].f, b.xs[t], b.us[t]))[1]))} :
  \A tol \in {RMul("1/10000", RAdd("1", VNorm1(v)))} :
  \A i \in 1..p.nodes[t].nu : LET lo == p.nodes[t].lb[i] hi == p.nodes[t].ub[i] u == b.us[t][i] IN
    IF RLe(RAbs(q[i]), tol) THEN TRUE
    ELSE IF RLt("0", q[i]) THEN RIsNum(lo) /\ RLe(RMul(q[i], RSub(u, lo)), tol) ELSE RIsNum(hi) /\ RLe(RMul(RNeg(q[i]), RSub(hi, u)), tol)
TSolve == /\ Is("solve") /\ UNCHANGED <<P, B>>
          /\ LET b == [xs |-> R.sxs, us |-> R.sus] IN
             (/\ Ck("shape of the solution", Shape(P, b))
              /\ Ck("iterations", R.iter >= 0 /\ R.iter <= R.in.maxiter)
              /\ (IF Nums(b) THEN
                    \A z \in {At(P, b)} : \A s \in {RMul("1/100000", SizeOf(P, b))} :
                    /\ Ck("cost of the trajectory", RIsNum(R.cost) /\ RLe(RAbs(RSub(R.cost, Obj(P, b, z))), s))
                    /\ (IF R.ret THEN
                         /\ Ck("solution follows the motions from the start", Within(<<Con(P, b, z)>>, <<VZero(NCon(P))>>, s))
                         /\ Ck("solution within limits", InLim(P, b))
                         /\ Ck("solution is stationary", P.nice => Stationary(P, b)) \* costs bounded below: the library accepts some escaping iterates otherwise
                         ELSE TRUE)
                  ELSE Ck("failed solve", ~R.ret))) = TRUE
          /\ Keeps = TRUE /\ Adv
TraceNext == TNew \/ TSet \/ TX0 \/ TSwap \/ TEval \/ TFinal \/ TSolve
TraceSpec == TraceInit /\ [][TraceNext]_<<P, B, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
