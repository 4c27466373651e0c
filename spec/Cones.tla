-------------------------------- MODULE Cones --------------------------------
(***************************************************************************)
(* Linearised contact models.  A cone is a set of parameters together with *)
(* the inequality rows of the parameters at its last update: a friction    *)
(* cone (forces), a wrench cone of a rectangular foot, the support region  *)
(* of the centre of pressure.  R maps the contact frame to the world.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigRat
Pi == "3.141592653589793238"
Inf(v) == ~RIsNum(v)
Col(R, j) == [i \in 1..3 |-> R[i][j]]
\* inadmissible values are replaced by these
MuOf(v) == IF RLt(v, "0") THEN "1" ELSE v
MinOf(v) == IF RLt(v, "0") THEN "0" ELSE v
MaxOf(v) == IF RLt(v, "0") THEN "inf" ELSE v
NfOf(n) == IF n % 2 = 0 THEN n ELSE 4
BoxOf(b) == [i \in 1..2 |-> IF RLt(b[i], "0") THEN "inf" ELSE b[i]]
\* rows of the friction pyramid: nf facets around the normal, then the normal force
Angle(nf, i) == RDiv(RMul(Pi, RInt(2 * i)), RInt(nf))
MuEff(mu, nf, inner) == IF inner THEN RMul(mu, RFun("cos", RDiv(Pi, RInt(nf)))) ELSE mu
Tangent(R, nf, i) == VAdd(VScale(RFun("cos", Angle(nf, i)), Col(R, 1)), VScale(RFun("sin", Angle(nf, i)), Col(R, 2)))
Friction(R, mu, nf, inner) ==
  LET m == VScale(MuEff(mu, nf, inner), Col(R, 3)) IN
  [r \in 1..(nf + 1) |-> IF r > nf THEN Col(R, 3)
                         ELSE LET t == Tangent(R, nf, (r - 1) \div 2) IN IF r % 2 = 1 THEN VSub(t, m) ELSE VSub(VScale("-1", t), m)]
\* the centre of pressure lies in the rectangle of the given length (x) and width (y)
Half(v) == RDiv(v, "2")
Support(R, box) ==
  LET L == Half(box[1]) W == Half(box[2]) z == Col(R, 3) IN
  <<VScale(RNeg(W), z) \o Col(R, 1), VScale(RNeg(W), z) \o VScale("-1", Col(R, 1)),
    VScale(RNeg(L), z) \o Col(R, 2), VScale(RNeg(L), z) \o VScale("-1", Col(R, 2))>>
\* a vector given in the contact frame
World(R, v) == MV(R, v)
\* the yaw torque lies between its extremes: signs s1, s2 of the lower one, then of the upper one
Signs == <<<<"1", "1">>, <<"1", "-1">>, <<"-1", "1">>, <<"-1", "-1">>>>
Yaw(R, m, box) ==
  LET L == Half(box[1]) W == Half(box[2]) n == RNeg(RMul(m, RAdd(L, W))) IN
  [k \in 1..8 |-> LET s == Signs[((k - 1) % 4) + 1] f == World(R, <<RMul(s[1], W), RMul(s[2], L), n>>)
                      t == World(R, <<RMul(RNeg(s[1]), m), RMul(RNeg(s[2]), m), "-1">>) IN
                  f \o (IF k <= 4 THEN t ELSE VScale("-1", t))]
Pad(row) == row \o <<"0", "0", "0">>
\* the rows of a cone, those that its box does not allow to state left out (<<>>)
Rows(C) ==
  LET nobox == C.kind # "friction" /\ (Inf(C.box[1]) \/ Inf(C.box[2])) IN
  CASE C.kind = "friction" -> Friction(C.R, C.mu, C.nf, C.inner)
    [] C.kind = "cop" -> IF nobox THEN [k \in 1..4 |-> <<>>] ELSE Support(C.R, C.box)
    [] OTHER -> LET F == Friction(C.R, C.mu, C.nf, C.inner) IN
                [r \in 1..(C.nf + 1) |-> Pad(F[r])] \o
                (IF nobox THEN [k \in 1..12 |-> <<>>] ELSE Support(C.R, C.box) \o Yaw(C.R, MuEff(C.mu, C.nf, C.inner), C.box))
NRows(C) == CASE C.kind = "friction" -> C.nf + 1 [] C.kind = "cop" -> 4 [] OTHER -> C.nf + 13
Lower(C) == [r \in 1..NRows(C) |-> IF C.kind # "cop" /\ r = C.nf + 1 THEN C.min ELSE "-inf"]
Upper(C) == [r \in 1..NRows(C) |-> IF C.kind # "cop" /\ r = C.nf + 1 THEN C.max ELSE "0"]
Updated(C) == [p |-> C, A |-> Rows(C), lb |-> Lower(C), ub |-> Upper(C)]
Made(kind, R, mu, nf, inner, min, max, box) ==
  [kind |-> kind, R |-> R, mu |-> MuOf(mu), nf |-> NfOf(nf), inner |-> inner, min |-> MinOf(min), max |-> MaxOf(max), box |-> BoxOf(box)]
Id3 == <<<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>>>
Default(kind) == Made(kind, Id3, "7/10", 4, TRUE, "0", "inf", <<"inf", "inf">>)
Changed(C, f, v) ==
  CASE f = "mu" -> [C EXCEPT !.mu = MuOf(v)] [] f = "min" -> [C EXCEPT !.min = MinOf(v)] [] f = "max" -> [C EXCEPT !.max = MaxOf(v)]
    [] f = "inner" -> [C EXCEPT !.inner = v] [] f = "box" -> [C EXCEPT !.box = BoxOf(v)] [] OTHER -> [C EXCEPT !.R = v]
\* single precision
Cast32(v) == IF RIsNum(v) THEN RFloat32(v) ELSE v
Cast(C) == [C EXCEPT !.R = [i \in 1..3 |-> [j \in 1..3 |-> Cast32(C.R[i][j])]], !.mu = Cast32(C.mu), !.min = Cast32(C.min), !.max = Cast32(C.max), !.box = [i \in 1..2 |-> Cast32(C.box[i])]]
\* a force or wrench satisfies the rows
Accepts(U, w, tol) == \A r \in 1..Len(U.A) : LET v == VDot(U.A[r], w) IN RLe(U.lb[r], RAdd(v, tol)) /\ RLe(RSub(v, tol), U.ub[r])
=============================================================================
