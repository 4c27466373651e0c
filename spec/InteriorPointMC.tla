--------------------------- MODULE InteriorPointMC ---------------------------
(***************************************************************************)
(* Small problems on both state spaces with the program posed on them.     *)
(* Checked at every point visited: the blocks partition the variables;     *)
(* the constraints vanish exactly on the trajectories that start at x0 and *)
(* follow the motions; gradient, Jacobian and Hessian are the derivatives  *)
(* (five-point differences, exact here); accepting a point as the new base *)
(* keeps the objective, the gaps and the trajectory.                       *)
(***************************************************************************)
EXTENDS InteriorPoint
CONSTANTS MaxSteps
VARIABLES P, B, z, steps
vars == <<P, B, z, steps>>
Fx(n, i, k) == [n |-> n, i |-> i, k |-> k]
\* node kinds: vec of size 2, nu 0..2; index 3.. controls, last = 1
Vf(nu) == Fx(2, <<<<1, 2, 3 + nu, 3 + nu>>, <<2, 1, 1, 3>>, <<2, 3, 3 + nu, 3 + nu>>>>, <<"1/2", "-1", "2">>)
Vl(nu) == Fx(1, <<<<1, 1, 1, 3 + nu>>, <<1, 2, 3, 3>>, <<1, 1, 3, 3 + nu>>>>, <<"1", "1/2", "-1">>)
Hf(nu) == Fx(6, <<<<1, 4, 7 + nu, 7 + nu>>, <<2, 5, 7 + nu, 7 + nu>>, <<3, 7, 7 + nu, 7 + nu>>, <<5, 3, 7 + nu, 7 + nu>>>>, <<"1", "1/2", "-1", "1">>)
Hl(nu) == Fx(1, <<<<1, 1, 3, 7 + nu>>, <<1, 4, 4, 7 + nu>>, <<1, 7, 7, 7 + nu>>>>, <<"1", "1/2", "-1">>)
Node(st, nu) == [nu |-> nu, f |-> IF st = "vec" THEN Vf(nu) ELSE Hf(nu), l |-> IF st = "vec" THEN Vl(nu) ELSE Hl(nu),
                 lb |-> [i \in 1..nu |-> "-1"], ub |-> [i \in 1..nu |-> "inf"]]
\* with no control the third index is the constant
End(st) == IF st = "vec" THEN Fx(1, <<<<1, 1, 2, 3>>, <<1, 2, 2, 3>>>>, <<"1", "-1/2">>) ELSE Fx(1, <<<<1, 3, 4, 7>>, <<1, 1, 1, 7>>>>, <<"1", "2">>)
Prob(st, nus) == [st |-> st, nx |-> IF st = "vec" THEN 2 ELSE 6, nodes |-> [t \in 1..Len(nus) |-> Node(st, nus[t])], end |-> End(st),
                  x0 |-> IF st = "vec" THEN <<"1", "-1/2">> ELSE <<"1", "0", "1/2", "-1", "1", "0">>]
Probs == {Prob("vec", nus) : nus \in {<<1>>, <<1, 2>>, <<0, 1>>, <<2, 0, 1>>}} \cup {Prob("heis", nus) : nus \in {<<1>>, <<0, 1>>}}
\* some points
Pat == <<"1", "-1/2", "0", "2", "-1", "1/2", "0">>
Some(n, k) == [i \in 1..n |-> Pat[1 + ((i * k + k) % 7)]]
Bases(p) == {[xs |-> [t \in 1..T(p) + 1 |-> Some(N(p), t + k)], us |-> [t \in 1..T(p) |-> Some(p.nodes[t].nu, k)]] : k \in 1..2}
\* the point of a trajectory that follows the motions from x0
RECURSIVE Roll(_, _, _)
Roll(p, k, t) == IF t = 1 THEN p.x0 ELSE Value(p.st, "f", p.nodes[t - 1].f, Roll(p, k, t - 1), Some(p.nodes[t - 1].nu, k))
Rolled(p, b, k) == Cat([t \in 1..T(p) |-> SDiff(p.st, b.xs[t], Roll(p, k, t)) \o Some(p.nodes[t].nu, k)]) \o SDiff(p.st, b.xs[T(p) + 1], Roll(p, k, T(p) + 1))
Zs(p, b) == {Start(p, b), Rolled(p, b, 1), Rolled(p, b, 3)} \cup {Some(NVar(p), k) : k \in {1, 2}}
Init == steps = 0 /\ P \in Probs /\ B = Blank(P) /\ z = Start(P, B)
Give == steps < MaxSteps /\ \E b \in Bases(P) : B' = b /\ z' = Start(P, b) /\ steps' = steps + 1 /\ UNCHANGED P
Visit == steps < MaxSteps /\ \E y \in Zs(P, B) : z' = TLCEval(y) /\ steps' = steps + 1 /\ UNCHANGED <<P, B>>
Accept == steps < MaxSteps /\ B' = Traj(P, B, z) /\ z' = Start(P, B') /\ steps' = steps + 1 /\ UNCHANGED P
Next == Give \/ Visit \/ Accept
Spec == Init /\ [][Next]_vars
Unit(n, i, h) == [j \in 1..n |-> IF j = i THEN h ELSE "0"]
Five(f(_)) == RDiv(RSub(RMul("8", RSub(f("1/4"), f("-1/4"))), RSub(f("1/2"), f("-1/2"))), "3")
Shift(y, i, h) == VAdd(y, Unit(Len(y), i, h))
Blocks == /\ \A t \in 1..T(P) : Off(P, t + 1) = Off(P, t) + N(P) + P.nodes[t].nu
          /\ Len(Start(P, B)) = NVar(P) /\ Len(Low(P)) = NVar(P) /\ Len(High(P)) = NVar(P) /\ Len(Con(P, B, z)) = NCon(P)
Follows == LET tr == Traj(P, B, z) IN VEq(tr.xs[1], P.x0) /\ \A t \in 1..T(P) : VEq(tr.xs[t + 1], Value(P.st, "f", P.nodes[t].f, tr.xs[t], tr.us[t]))
Consistent == (\A i \in 1..NCon(P) : REq(Con(P, B, z)[i], "0")) <=> Follows
Hs == {"1/4", "-1/4", "1/2", "-1/2"}
GradIsLimit(p, b, y) == \A g \in {TLCEval(Grad(p, b, y))} :
  /\ Len(g) = NVar(p)
  /\ \A i \in 1..NVar(p) : LET f(h) == Obj(p, b, Shift(y, i, h)) IN REq(Five(f), g[i])
JacIsLimit(p, b, y) == \A J \in {TLCEval(Jac(p, b, y))} :
  /\ Len(J) = NCon(p)
  /\ \A i \in 1..NVar(p) : \A D \in {TLCEval([h \in Hs |-> Con(p, b, Shift(y, i, h))])} :
       \A r \in 1..NCon(p) : LET f(h) == D[h][r] IN Len(J[r]) = NVar(p) /\ REq(Five(f), J[r][i])
\* exact on the Euclidean space
HessIsLimit(p, b, y) == \A H \in {TLCEval(Hess(p, b, y, "1"))} :
  /\ \A i, j \in 1..NVar(p) : REq(H[i][j], H[j][i])
  /\ p.st = "vec" => \A i \in 1..NVar(p) : \A G \in {TLCEval([h \in Hs |-> Grad(p, b, Shift(y, i, h))])} :
       \A j \in 1..NVar(p) : LET f(h) == G[h][j] IN REq(Five(f), H[j][i])
Right == Blocks /\ Consistent /\ \A p \in {P}, b \in {B}, y \in {z} : GradIsLimit(p, b, y) /\ JacIsLimit(p, b, y) /\ HessIsLimit(p, b, y)
Keeps == [][(B' # B /\ z' = Start(P', B') /\ B' = Traj(P, B, z)) => REq(Obj(P, B, z), Obj(P', B', z')) /\ VEq(Con(P, B, z), Con(P', B', z'))]_vars
=============================================================================
