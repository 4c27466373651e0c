------------------------------- MODULE RobotDyn -------------------------------
(***************************************************************************)
(* The actions of robots.  m is the action: rb the robot, k its kind (ff,  *)
(* cf: accelerations from torques, freely or in contact; fi, ci: torques   *)
(* from accelerations; im: velocities after an impact), the actuation      *)
(* (act, on, ac, as, ak), it the stack of contacts or impulses, arm extra  *)
(* rotor inertias, mu damping, rc restitution, costs and user constraints. *)
(* L holds what the rigid-body library says at a point: mass matrix M,     *)
(* bias torques nle, gravity torques gr, contact Jacobian J and drift a0.  *)
(***************************************************************************)
EXTENDS Contacts
NvR(m) == SNv(m.rb.jk)
NqR(m) == SNq(m.rb.jk)
\* actuated coordinates, in the order of the inputs
Acted(m) == LET n == NvR(m) IN CASE m.act = "full" -> [i \in 1..n |-> i] [] m.act = "base" -> [i \in 1..(n - 6) |-> i + 6] [] OTHER -> [i \in 1..Len(m.on) |-> m.on[i] + 1]
NActed(m) == Len(Acted(m))
Free(m) == LET a == Acted(m) IN SelectSeq([i \in 1..NvR(m) |-> i], LAMBDA i : \A j \in 1..Len(a) : a[j] # i)
Sel(v, s) == [i \in 1..Len(s) |-> v[s[i]]]
\* torques from inputs u (velocity v, configuration q): springs only on one-dimensional joints
At(s, i) == CHOOSE j \in 1..Len(s) : s[j] = i
Torque(m, q, v, u) ==
  LET a == Acted(m) n == NvR(m) d == NqR(m) - n IN
  [i \in 1..n |->
     LET in == IF \E j \in 1..Len(a) : a[j] = i THEN u[At(a, i)] ELSE "0" IN
     IF m.act # "part" THEN in
     ELSE RSub(RSub(RMul(in, RAdd("1", RMul(m.ak, v[i]))), RMul(m.ac, v[i])), IF d = 0 \/ i > 6 THEN RMul(m.as, q[i + d]) ELSE "0")]
\* J' f, also without any rows
Trans(J, f, n) == IF Len(J) = 0 THEN VZero(n) ELSE MV(MT(J), f)
Inertia(m, L) == [i \in 1..NvR(m) |-> [j \in 1..NvR(m) |-> IF i = j THEN RAdd(L.M[i][i], m.arm[i]) ELSE L.M[i][j]]]
\* accelerations a solve the equations of motion with contact forces f
Moves(m, L, tau, a, f, tol) == VClose(VAdd(MV(Inertia(m, L), a), L.nle), VAdd(tau, Trans(L.J, f, NvR(m))), tol)
\* the contacts accelerate as prescribed, up to damping
Holds(m, L, a, f, tol) == Len(L.J) = 0 \/ VClose(VAdd(VAdd(MV(L.J, a), L.a0), VScale(m.mu, f)), VZero(Len(L.J)), tol)
\* impact: from v to w with impulses f
Strikes(m, L, v, w, f, tol) ==
  /\ VClose(MV(Inertia(m, L), VSub(w, v)), Trans(L.J, f, NvR(m)), tol)
  /\ (Len(L.J) = 0 \/ VClose(VAdd(VAdd(MV(L.J, w), VScale(m.mu, f)), VScale(m.rc, MV(L.J, v))), VZero(Len(L.J)), tol))
\* torques needed for acceleration a against contact forces f
Needed(m, L, a, f) == VSub(VAdd(MV(L.M, a), L.nle), Trans(L.J, f, NvR(m)))
\* components of a contact's force, and the forces of all active contacts one after another
PickF(c, s) == CASE c.k = "1d" -> <<s[3]>> [] c.k = "2d" -> <<s[1], s[3]>> [] c.k = "3d" -> Lin(s) [] OTHER -> s
RECURSIVE Stacked(_, _, _)
Stacked(it, f, i) == IF i = 0 THEN <<>> ELSE Stacked(it, f, i - 1) \o (IF it[i].on THEN PickF(it[i].c, f[i]) ELSE <<>>)
\* holding still: u and f with B u + J' f closest to g, the shortest such; w certifies it (u, f are [B J']' w)
StillA(m, J) == LET a == Acted(m) n == NvR(m) IN [i \in 1..n |-> [j \in 1..Len(a) |-> IF a[j] = i THEN "1" ELSE "0"] \o [r \in 1..Len(J) |-> J[r][i]]]
Still(A, w) == MV(MT(A), w)
IsStill(A, g, w, tol) == LET r == VSub(MV(A, Still(A, w)), g) IN VClose(MV(MT(A), r), VZero(Len(A[1])), tol)
\* dimensions
NuM(m) == CASE m.k \in {"ff", "cf"} -> NActed(m) [] m.k = "fi" -> NvR(m) [] m.k = "ci" -> NvR(m) + Total(m.it) [] OTHER -> 0
NrOf(m, c) == CASE c.r = "x" -> 2 * NvR(m) [] c.r = "u" -> NuM(m) [] c.r = "acc" -> NvR(m) [] c.r = "tau" -> NActed(m) [] c.r \in {"mom", "pla", "vel"} -> 6
                [] c.r = "fc" -> (LET j == CHOOSE j \in 1..Len(m.it) : m.it[j].c.fr = c.fr IN NcOf(m.it[j].c)) [] OTHER -> 3
RECURSIVE SumNr(_, _)
SumNr(m, s) == IF s = <<>> THEN 0 ELSE NrOf(m, s[1]) + SumNr(m, Tail(s))
Eqs(m) == SelectSeq(m.user, LAMBDA c : c.eq)
Ineqs(m) == SelectSeq(m.user, LAMBDA c : ~c.eq)
NhOwn(m) == IF m.k \in {"fi", "ci"} THEN NvR(m) - NActed(m) + (IF m.k = "ci" THEN Total(m.it) ELSE 0) ELSE 0
Force(m, c) == IF \E j \in 1..Len(m.it) : m.it[j].c.fr = c.fr THEN CHOOSE j \in 1..Len(m.it) : m.it[j].c.fr = c.fr ELSE 0
=============================================================================
