----------------------------- MODULE Integrators -----------------------------
(***************************************************************************)
(* From a differential model (accelerations, costs, constraints, all       *)
(* polynomials here) to a discrete one.  An integrated model holds the     *)
(* differential model, a parametrization of its control, a time step and a *)
(* scheme: symplectic Euler, or Runge-Kutta of order two, three or four.   *)
(* The next state moves from the current one along the weighted slopes, on *)
(* any state space; derivatives follow by the chain rule through every     *)
(* stage; constraints and residuals are those of the current point.        *)
(***************************************************************************)
EXTENDS Controls, StateSpace
\* polynomial functions: value_i = c_i + L_i z + sum of coefficients times products of two entries
PolyValue(c, L, idx, k, z) ==
  [i \in 1..Len(c) |-> RAdd(RAdd(c[i], VDot(L[i], z)), VSum([j \in 1..Len(k) |-> IF idx[j][1] = i THEN RMul(k[j], RMul(z[idx[j][2]], z[idx[j][3]])) ELSE "0"]))]
PolyJac(c, L, idx, k, z) ==
  [i \in 1..Len(c) |-> [n \in 1..Len(z) |->
     RAdd(L[i][n], VSum([j \in 1..Len(k) |-> IF idx[j][1] # i THEN "0"
                                             ELSE RMul(k[j], RAdd(IF idx[j][2] = n THEN z[idx[j][3]] ELSE "0", IF idx[j][3] = n THEN z[idx[j][2]] ELSE "0"))]))]]
\* the differential model D at a point x and a control w; all of it, or the part that exists at the end of the horizon
Z(x, w) == x \o w
First(s, n) == SubSeq(s, 1, n)
Cols(A, i, j) == [r \in 1..Len(A) |-> SubSeq(A[r], i, j)]
DValue(D, x, w, run) ==
  LET z == Z(x, w) IN
  [a |-> PolyValue(D.ac, D.aL, D.ai, D.ak, z), l |-> RAdd(RMul(Half, VDot(z, MV(D.H, z))), VDot(D.c, z)),
   g |-> First(PolyValue(D.gc, D.gL, D.gi, D.gk, z), IF run THEN Len(D.gc) ELSE D.ngT),
   h |-> First(PolyValue(D.hc, D.hL, D.hi, D.hk, z), IF run THEN Len(D.hc) ELSE D.nhT),
   r |-> PolyValue(D.rc, D.rL, D.ri, D.rk, z)]
DDeriv(D, x, w, run) ==
  LET z == Z(x, w) n == Len(x) N == Len(z)
      T == STangent(D.st, x)
      Ja == PolyJac(D.ac, D.aL, D.ai, D.ak, z)
      Jg == First(PolyJac(D.gc, D.gL, D.gi, D.gk, z), IF run THEN Len(D.gc) ELSE D.ngT)
      Jh == First(PolyJac(D.hc, D.hL, D.hi, D.hk, z), IF run THEN Len(D.hc) ELSE D.nhT)
      l == VAdd(MV(D.H, z), D.c)
      Hx == First(D.H, n)
  IN [fx |-> MMul(Cols(Ja, 1, n), T), fu |-> Cols(Ja, n + 1, N),
      lx |-> MTV(T, SubSeq(l, 1, n), n), lu |-> SubSeq(l, n + 1, N),
      lxx |-> MMul(MT(T), MMul(Cols(Hx, 1, n), T)), lxu |-> MMul(MT(T), Cols(Hx, n + 1, N)), luu |-> Cols(SubSeq(D.H, n + 1, N), n + 1, N),
      gx |-> MMul(Cols(Jg, 1, n), T), gu |-> Cols(Jg, n + 1, N), hx |-> MMul(Cols(Jh, 1, n), T), hu |-> Cols(Jh, n + 1, N)]

\* schemes: times of the stages and weights of their slopes
Times(s) == CASE s = "euler" -> <<"0">> [] s = "rk2" -> <<"0", "1/2">> [] s = "rk3" -> <<"0", "1/3", "2/3">> [] s = "rk4" -> <<"0", "1/2", "1/2", "1">>
Slopes(s) == CASE s = "euler" -> <<"1">> [] s = "rk2" -> <<"0", "1">> [] s = "rk3" -> <<"1/4", "0", "3/4">> [] s = "rk4" -> <<"1/6", "1/3", "1/3", "1/6">>

\* the control of a parametrization, and the products with its derivative (of matrices with and without rows)
CtrlKind(k) == IF k = "none" THEN "zero" ELSE k
W(I, t, u) == ControlAt(CtrlKind(I.ctrl), I.D.nw, t, u)
Wt(I, t) == Weights(CtrlKind(I.ctrl), t)
NuI(I) == NuOf(CtrlKind(I.ctrl), I.D.nw)

\* the stages up to stage i: points and slopes
RECURSIVE Stages(_, _, _, _)
Stages(I, x, u, i) ==
  IF i = 0 THEN <<>>
  ELSE LET P == Stages(I, x, u, i - 1) t == Times(I.scheme)[i] nv == I.D.nv
           dx == IF i = 1 THEN VZero(2 * nv) ELSE VScale(RMul(I.dt, t), P[i - 1].k)
           y == IF i = 1 THEN x ELSE SMove(I.D.st, x, dx)
           w == W(I, t, u)
           v == DValue(I.D, y, w, TRUE)
       IN Append(P, [y |-> y, w |-> w, dx |-> dx, k |-> SubSeq(y, nv + 1, 2 * nv) \o v.a, v |-> v])
RECURSIVE SumOver(_, _, _, _)
SumOver(s, b, c, n) == IF n = 0 THEN "0" ELSE RAdd(SumOver(s, b, c, n - 1), RMul(b[n], s[n].v.l))
RECURSIVE SumK(_, _, _)
SumK(s, b, n) == IF n = 1 THEN VScale(b[1], s[1].k) ELSE VAdd(SumK(s, b, n - 1), VScale(b[n], s[n].k))
StepOf(I, s) ==
  IF I.scheme = "euler" THEN VAdd(VScale(I.dt, First(s[1].k, I.D.nv)), VScale(RMul(I.dt, I.dt), s[1].v.a)) \o VScale(I.dt, s[1].v.a)
  ELSE VScale(I.dt, SumK(s, Slopes(I.scheme), Len(s)))
ActValue(I, s, x) ==
  [f |-> SMove(I.D.st, x, StepOf(I, s)), l |-> RMul(I.dt, SumOver(s, Slopes(I.scheme), 0, Len(s))), g |-> s[1].v.g, h |-> s[1].v.h, r |-> s[1].v.r]
\* derivatives
RECURSIVE Derivs(_, _, _)
Derivs(I, s, i) ==
  IF i = 0 THEN <<>>
  ELSE LET P == Derivs(I, s, i - 1) t == Times(I.scheme)[i] nv == I.D.nv st == I.D.st c == Wt(I, t) nw == I.D.nw
           d == DDeriv(I.D, s[i].y, s[i].w, TRUE)
           J2 == MScale(RMul(I.dt, t), SSecond(st, s[i].dx))
           yx == IF i = 1 THEN MId(2 * nv) ELSE MAdd(SFirst(st, s[i].dx), MMul(J2, P[i - 1].kx))
           yu == IF i = 1 THEN MZero(2 * nv, NuI(I)) ELSE MMul(J2, P[i - 1].ku)
           fuw == MulJ(d.fu, c, nw) lxw == MulJ(d.lxu, c, nw) luw == MulJT(MulJ(d.luu, c, nw), c, nw)
           xw == MMul(MT(yu), lxw)
       IN Append(P, [kx |-> SubSeq(yx, nv + 1, 2 * nv) \o MMul(d.fx, yx),
                     ku |-> SubSeq(yu, nv + 1, 2 * nv) \o MAdd(MMul(d.fx, yu), fuw),
                     lx |-> MTV(yx, d.lx, 2 * nv), lu |-> VAdd(MTV(yu, d.lx, NuI(I)), MTV(Jac(c, nw), d.lu, NuI(I))),
                     lxx |-> MMul(MT(yx), MMul(d.lxx, yx)), lxu |-> MMul(MT(yx), MAdd(MMul(d.lxx, yu), lxw)),
                     luu |-> MAdd(MAdd(MMul(MT(yu), MMul(d.lxx, yu)), MAdd(xw, MT(xw))), luw), d |-> d])
RECURSIVE SumM(_, _, _, _)
SumM(p, b, c, n) == IF n = 1 THEN MScale(b[1], p[1][c]) ELSE MAdd(SumM(p, b, c, n - 1), MScale(b[n], p[n][c]))
RECURSIVE SumV(_, _, _, _)
SumV(p, b, c, n) == IF n = 1 THEN VScale(b[1], p[1][c]) ELSE VAdd(SumV(p, b, c, n - 1), VScale(b[n], p[n][c]))
Shift(nv, dt) == [i \in 1..nv |-> [j \in 1..2 * nv |-> IF j = nv + i THEN dt ELSE "0"]]
ActDeriv(I, s) ==
  LET p == Derivs(I, s, Len(s)) n == Len(s) b == Slopes(I.scheme) nv == I.D.nv st == I.D.st nw == I.D.nw
      dx == StepOf(I, s)
      J1 == SFirst(st, dx) J2 == SSecond(st, dx)
      a == SubSeq(p[1].kx, nv + 1, 2 * nv) au == SubSeq(p[1].ku, nv + 1, 2 * nv) d2 == RMul(I.dt, I.dt)
      sx == IF I.scheme = "euler" THEN MAdd(Shift(nv, I.dt), MScale(d2, a)) \o MScale(I.dt, a) ELSE MScale(I.dt, SumM(p, b, "kx", n))
      su == IF I.scheme = "euler" THEN MScale(d2, au) \o MScale(I.dt, au) ELSE MScale(I.dt, SumM(p, b, "ku", n))
      c0 == Wt(I, "0")
  IN [fx |-> MAdd(J1, MMul(J2, sx)), fu |-> MMul(J2, su), lx |-> VScale(I.dt, SumV(p, b, "lx", n)), lu |-> VScale(I.dt, SumV(p, b, "lu", n)),
      lxx |-> MScale(I.dt, SumM(p, b, "lxx", n)), lxu |-> MScale(I.dt, SumM(p, b, "lxu", n)), luu |-> MScale(I.dt, SumM(p, b, "luu", n)),
      gx |-> p[1].d.gx, hx |-> p[1].d.hx, gu |-> MulJ(p[1].d.gu, c0, nw), hu |-> MulJ(p[1].d.hu, c0, nw)]
\* the end of the horizon: no step is taken
EndValue(I, x) == LET v == DValue(I.D, x, VZero(I.D.nw), FALSE) IN [f |-> x, l |-> v.l, g |-> v.g, h |-> v.h, r |-> v.r]
EndDeriv(I, x) == LET d == DDeriv(I.D, x, VZero(I.D.nw), FALSE) IN [lx |-> d.lx, lxx |-> d.lxx, gx |-> d.gx, hx |-> d.hx]
\* limits of the parameters
Limits(I) == [lb |-> Params(CtrlKind(I.ctrl), I.D.lb), ub |-> Params(CtrlKind(I.ctrl), I.D.ub)]
=============================================================================
