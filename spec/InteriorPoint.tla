---------------------------- MODULE InteriorPoint ----------------------------
(***************************************************************************)
(* The nonlinear program of a shooting problem.  The problem has nodes of  *)
(* sizes nu, each with a motion f (the next state is the point moved by    *)
(* it) and a cost l, a terminal cost, a start point and limits of the      *)
(* controls.  The program is posed around a base trajectory B: its         *)
(* variables are, node by node, the displacement of the state from the     *)
(* base and the control; at the end the displacement of the last state.    *)
(***************************************************************************)
EXTENDS NumDiff
T(P) == Len(P.nodes)
N(P) == P.nx
\* first position of a node's block
RECURSIVE Off(_, _)
Off(P, t) == IF t = 1 THEN 0 ELSE Off(P, t - 1) + N(P) + P.nodes[t - 1].nu
NVar(P) == Off(P, T(P) + 1) + N(P)
NCon(P) == (T(P) + 1) * N(P)
DX(P, z, t) == SubSeq(z, Off(P, t) + 1, Off(P, t) + N(P))
UU(P, z, t) == SubSeq(z, Off(P, t) + N(P) + 1, Off(P, t) + N(P) + P.nodes[t].nu)
XX(P, B, z, t) == SMove(P.st, B.xs[t], DX(P, z, t))
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
\* where the iteration starts
Start(P, B) == Cat([t \in 1..T(P) |-> VZero(N(P)) \o B.us[t]]) \o VZero(N(P))
\* objective
Obj(P, B, z) == RAdd(VSum([t \in 1..T(P) |-> FVal(P.nodes[t].l, XX(P, B, z, t) \o UU(P, z, t))[1]]), FVal(P.end, XX(P, B, z, T(P) + 1))[1])
Grad(P, B, z) ==
  LET S(t) == SSecond(P.st, DX(P, z, t)) IN
  Cat([t \in 1..T(P) |-> LET x == TLCEval(XX(P, B, z, t)) u == UU(P, z, t) L == P.nodes[t].l IN
         MMul(InX(P.st, "l", L, x, u), S(t))[1] \o (IF u = <<>> THEN <<>> ELSE InU(P.st, "l", L, x, u)[1])])
  \o MMul(InX(P.st, "l", P.end, XX(P, B, z, T(P) + 1), <<>>), S(T(P) + 1))[1]
\* constraints: gaps between the nodes, then the start
Next1(P, B, z, t) == Value(P.st, "f", P.nodes[t].f, XX(P, B, z, t), UU(P, z, t))
Gap(P, B, z, t) == SDiff(P.st, Next1(P, B, z, t), XX(P, B, z, t + 1))
Con(P, B, z) == Cat([t \in 1..T(P) |-> Gap(P, B, z, t)]) \o SDiff(P.st, XX(P, B, z, 1), P.x0)
\* rows of n entries placed at position o of a row of w entries
Put(A, o, w) == [r \in 1..Len(A) |-> [c \in 1..w |-> IF c > o /\ c <= o + Len(A[r]) THEN A[r][c - o] ELSE "0"]]
Jac(P, B, z) ==
  LET w == NVar(P)
      Rows(t) == LET x == TLCEval(XX(P, B, z, t)) u == UU(P, z, t) F == P.nodes[t].f d == TLCEval(Gap(P, B, z, t))
                     A == MMul(SDiffFirst(P.st, d), MMul(InX(P.st, "f", F, x, u), SSecond(P.st, DX(P, z, t))))
                     C == MMul(SDiffSecond(P.st, d), SSecond(P.st, DX(P, z, t + 1)))
                     U == MMul(SDiffFirst(P.st, d), InU(P.st, "f", F, x, u))
                     o == Off(P, t)
                     J1 == TLCEval(MAdd(Put(A, o, w), Put(C, o + N(P) + P.nodes[t].nu, w)))
                 IN IF u = <<>> THEN J1 ELSE TLCEval(MAdd(J1, Put(U, o + N(P), w)))
      d0 == SDiff(P.st, XX(P, B, z, 1), P.x0)
  IN Cat([t \in 1..T(P) |-> Rows(t)]) \o Put(MMul(SDiffFirst(P.st, d0), SSecond(P.st, DX(P, z, 1))), 0, w)
\* second derivatives of the node costs, pulled back to the displacements (the curvature of moving is not used)
Hess(P, B, z, s) ==
  LET w == NVar(P)
      S(t) == TLCEval(SSecond(P.st, DX(P, z, t)))
      Block(t) == LET x == TLCEval(XX(P, B, z, t)) u == UU(P, z, t) L == P.nodes[t].l o == Off(P, t)
                      A == MMul(MT(S(t)), MMul(HXX(P.st, L, x, u), S(t)))
                      C == IF u = <<>> THEN <<>> ELSE MMul(MT(S(t)), HXU(P.st, L, x, u))
                      U == IF u = <<>> THEN <<>> ELSE HUU(L, x, u)
                  IN IF u = <<>> THEN Put(A, o, w)
                     ELSE Put([r \in 1..N(P) |-> A[r] \o C[r]], o, w) \o Put([r \in 1..Len(u) |-> MT(C)[r] \o U[r]], o, w)
      x1 == XX(P, B, z, T(P) + 1)
      E == MMul(MT(S(T(P) + 1)), MMul(HXX(P.st, P.end, x1, <<>>), S(T(P) + 1)))
  IN MScale(s, TLCEval(Cat([t \in 1..T(P) |-> Block(t)]) \o Put(E, Off(P, T(P) + 1), w)))
\* limits: displacements are free
Low(P) == Cat([t \in 1..T(P) |-> [i \in 1..N(P) |-> "-inf"] \o P.nodes[t].lb]) \o [i \in 1..N(P) |-> "-inf"]
High(P) == Cat([t \in 1..T(P) |-> [i \in 1..N(P) |-> "inf"] \o P.nodes[t].ub]) \o [i \in 1..N(P) |-> "inf"]
\* the trajectory of a point
Traj(P, B, z) == [xs |-> TLCEval([t \in 1..T(P) + 1 |-> XX(P, B, z, t)]), us |-> TLCEval([t \in 1..T(P) |-> UU(P, z, t)])]
\* the base of a problem nobody has given one
Blank(P) == [xs |-> [t \in 1..T(P) + 1 |-> VZero(N(P))], us |-> [t \in 1..T(P) |-> VZero(P.nodes[t].nu)]]
=============================================================================
