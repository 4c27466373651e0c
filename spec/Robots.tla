------------------------------- MODULE Robots -------------------------------
(* Random robots for the generators: chains of revolute (1) and prismatic (2) joints, possibly on a free-flying base (3). *)
EXTENDS BigRat, Integers, Sequences, TLC
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Pairs == {<<"1", "0">>, <<"3/5", "4/5">>, <<"-5/13", "12/13">>, <<"0", "-1">>, <<"24/25", "-7/25">>}
Ax(k, c, s) == CASE k = 1 -> <<<<"1", "0", "0">>, <<"0", c, RNeg(s)>>, <<"0", s, c>>>> [] k = 2 -> <<<<c, "0", s>>, <<"0", "1", "0">>, <<RNeg(s), "0", c>>>> [] OTHER -> <<<<c, RNeg(s), "0">>, <<s, c, "0">>, <<"0", "0", "1">>>>
Rot(x) == LET p == TLCEval(R(Pairs, 0)) q == TLCEval(R(Pairs, 0)) a == TLCEval(R(1..3, 0)) b == TLCEval(R(1..3, 0)) IN TLCEval(MMul(Ax(a, p[1], p[2]), Ax(b, q[1], q[2])))
Flat9(M) == M[1] \o M[2] \o M[3]
RotMaybe(x) == LET m == TLCEval(R(1..2, 0)) IN IF m = 1 THEN <<"1", "0", "0", "0", "1", "0", "0", "0", "1">> ELSE TLCEval(Flat9(Rot(0)))
Sm == {"-1/2", "-1/4", "0", "1/4", "1/2", "3/8", "-1/8", "1"}
Vec(k, S) == TLCEval([i \in 1..k |-> RandomElement(S)])
Axes == {<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>, <<"0", "3/5", "4/5">>, <<"2/3", "1/3", "-2/3">>}
Quats == {<<"0", "0", "0", "1">>, <<"1/5", "2/5", "2/5", "4/5">>, <<"0", "0", "3/5", "4/5">>, <<"-2/7", "-3/7", "0", "-6/7">>, <<"1/9", "-4/9", "0", "8/9">>, <<"5/13", "0", "0", "12/13">>, <<"2/7", "0", "3/7", "-6/7">>}
Nvs(k) == IF k = 3 THEN 6 ELSE 1
Nqs(k) == IF k = 3 THEN 7 ELSE 1
RECURSIVE SumNv(_), SumNq(_)
SumNv(s) == IF s = <<>> THEN 0 ELSE Nvs(s[1]) + SumNv(Tail(s))
SumNq(s) == IF s = <<>> THEN 0 ELSE Nqs(s[1]) + SumNq(Tail(s))
\* n joints after the base (if free); nf frames
Robot(free, n, nf, x) ==
  LET N == IF free THEN n + 1 ELSE n
      jk == TLCEval([i \in 1..N |-> IF free /\ i = 1 THEN 3 ELSE IF R(1..4, x) = 1 THEN 2 ELSE 1])
      fj == TLCEval([i \in 1..nf |-> IF R(1..3, x) = 1 THEN RandomElement(1..N) ELSE N])
  IN TLCEval([jk |-> jk, jp |-> TLCEval([i \in 1..N |-> IF i = 1 THEN 0 ELSE IF R(1..3, x) = 1 THEN RandomElement((IF free THEN 1 ELSE 0)..(i - 1)) ELSE i - 1]),
      ax |-> TLCEval([i \in 1..N |-> R(Axes, x)]), jR |-> TLCEval([i \in 1..N |-> RotMaybe(0)]), jt |-> TLCEval([i \in 1..N |-> Vec(3, Sm)]),
      jm |-> Vec(N, {"1", "1/2", "2", "3"}), jc |-> TLCEval([i \in 1..N |-> Vec(3, Sm)]), jI |-> TLCEval([i \in 1..N |-> R({<<"1/4", "1/4", "1/4">>, <<"1/4", "1/2", "3/8">>, <<"1", "1", "3/2">>}, x)]),
      jl |-> Vec(N, {"-1", "-2", "-inf", "-1/2"}), ju |-> Vec(N, {"1", "2", "inf", "1/2"}), jv |-> Vec(N, {"1", "5", "inf"}),
      ar |-> IF R(1..2, x) = 1 THEN TLCEval([i \in 1..SumNv(jk) |-> "0"]) ELSE Vec(SumNv(jk), {"0", "1/8", "1/2"}),
      root |-> free \/ R(1..6, x) = 1, fj |-> fj, fR |-> TLCEval([i \in 1..nf |-> RotMaybe(0)]), ft |-> TLCEval([i \in 1..nf |-> Vec(3, Sm)])])
RECURSIVE Config(_, _)
Config(ks, x) == IF ks = <<>> THEN <<>> ELSE (IF ks[1] = 3 THEN TLCEval(Vec(3, Sm) \o R(Quats, x)) ELSE <<R(Sm, x)>>) \o Config(Tail(ks), x)
Point(ks, x) == TLCEval(TLCEval(Config(ks, x)) \o Vec(SumNv(ks), Sm))
\* a displacement; the rotations of a base are not small, but less than half a turn
Disp(ks, x) == Vec(2 * SumNv(ks), Sm)
=============================================================================
