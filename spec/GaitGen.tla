------------------------------- MODULE GaitGen -------------------------------
(* Histories of a gait generator: walks, steps of several feet, single nodes. *)
EXTENDS Robots, Json
CONSTANT MaxOps
VARIABLES hist, rb, any
Log(e) == hist' = Append(hist, e)
Perms == {<<1, 2, 3, 4>>, <<2, 1, 4, 3>>, <<4, 3, 2, 1>>, <<3, 1, 4, 2>>, <<2, 4, 1, 3>>}
Hip == <<<<"1/2", "1/4", "0">>, <<"1/2", "-1/4", "1/8">>, <<"-1/2", "1/4", "0">>, <<"-3/8", "-1/4", "-1/8">>>>
\* a base with four legs of m joints
Quad(m, x) ==
  LET N == 4 * m + 1 legs == 1..4 jk == TLCEval([i \in 1..N |-> IF i = 1 THEN 3 ELSE 1])
      leg(i) == ((i - 2) \div m) + 1
      axs == TLCEval([i \in 1..N |-> IF (i - 2) % m = 0 THEN R({<<"1", "0", "0">>, <<"0", "3/5", "4/5">>}, 0) ELSE R({<<"0", "1", "0">>, <<"2/3", "1/3", "-2/3">>}, 0)])
  IN TLCEval([jk |-> jk, jp |-> TLCEval([i \in 1..N |-> IF i = 1 THEN 0 ELSE IF (i - 2) % m = 0 THEN 1 ELSE i - 1]),
      ax |-> axs, jR |-> TLCEval([i \in 1..N |-> RotMaybe(0)]), jt |-> TLCEval([i \in 1..N |-> IF i = 1 THEN <<"0", "0", "0">> ELSE IF (i - 2) % m = 0 THEN Hip[leg(i)] ELSE <<"1/8", "0", "-1/2">>]),
      jm |-> Vec(N, {"1", "1/2", "2"}), jc |-> TLCEval([i \in 1..N |-> Vec(3, Sm)]), jI |-> TLCEval([i \in 1..N |-> R({<<"1/4", "1/4", "1/4">>, <<"1/4", "1/2", "3/8">>}, x)]),
      jl |-> Vec(N, {"-2", "-inf"}), ju |-> Vec(N, {"2", "inf"}), jv |-> Vec(N, {"5", "inf"}), ar |-> TLCEval([i \in 1..(N + 5) |-> "1/8"]), root |-> TRUE,
      fj |-> <<1 + m, 1 + 2 * m, 1 + 3 * m, 1 + 4 * m>>, fR |-> TLCEval([i \in 1..4 |-> RotMaybe(0)]), ft |-> TLCEval([i \in 1..4 |-> <<R({"0", "1/8"}, 0), R({"0", "-1/8"}, 0), "-1/2">>])])
Nv == SumNv(rb.jk)
GNew == \E r \in One(Quad(R(2..3, 0), 0)) : rb' = r /\ any' = 0 /\ Log(r @@ [op |-> "new", feet |-> R(Perms, 0), stand |-> Config(r.jk, 0)])
Len1 == {"1/4", "1", "-1/2", "3/7", "0"}
Nums(z) == TLCEval([len |-> R(Len1, 0), h |-> R({"1/8", "1", "0", "-1/4", "1/3"}, 0), dt |-> R({"1/100", "1/8", "0", "1/50"}, 0), n |-> R(0..7, 0)])
GWalk == \E p \in One(Nums(0)), x \in One(Point(rb.jk, 0)), ns \in One(R(0..3, 0)) : Log(p @@ [op |-> "walk", x0 |-> x, ns |-> ns]) /\ any' = 2 * ns + 4 * (p.n + 1) + 1 /\ UNCHANGED rb
Splits == {<<<<1, 2, 3>>, <<4>>>>, <<<<1, 4>>, <<2, 3>>>>, <<<<3, 2>>, <<4, 1>>>>, <<<<4, 3>>, <<2, 1>>>>, <<<<>>, <<1, 2, 3, 4>>>>, <<<<2>>, <<4, 1, 3>>>>, <<<<3>>, <<2>>>>, <<<<4, 2, 1>>, <<3>>>>}
P3(n) == TLCEval([i \in 1..n |-> Vec(3, Sm)])
GStep == \E p \in One(Nums(0)), s \in One(R(Splits, 0)) : \E pos \in One(P3(Len(s[2]))) :
         Log(p @@ [op |-> "step", com |-> Vec(3, Sm), pos |-> pos, on |-> s[1], sw |-> s[2]]) /\ any' = p.n + 1 /\ UNCHANGED rb
GOne(k) == \E s \in One(R(Splits, 0)), com \in One(R(1..3, 0)), some \in One(R(1..4, 0) > 1), short \in One(R(1..4, 0) = 1) :
           \E sw \in One(IF some THEN s[2] ELSE <<>>) : \E ref \in One(P3(Len(sw))) :
           Log([op |-> k, dt |-> R({"1/100", "1/8"}, 0), on |-> s[1], sw |-> sw, ref |-> ref, pseudo |-> R(BOOLEAN, 0), short |-> short,
                com |-> CASE com = 1 -> <<"inf", "inf", "inf">> [] com = 2 -> <<"0", "inf", "1">> [] OTHER -> Vec(3, Sm)]) /\ any' = 1 /\ UNCHANGED rb
GLook == Log([op |-> "look", k |-> R(0..(any - 1), 0), x |-> Point(rb.jk, 0), u |-> Vec(Nv - 6, Sm)]) /\ UNCHANGED <<rb, any>>
Kinds == IF rb = <<>> THEN {"new"} ELSE {"walk", "walk2", "step", "step2", "swing", "switch"} \cup (IF R(1..4, 0) = 1 THEN {"new"} ELSE {}) \cup (IF any > 0 THEN {"look", "look2", "look3"} ELSE {})
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Kinds, 0)) :
            CASE k = "new" -> GNew [] k \in {"walk", "walk2"} -> GWalk [] k \in {"step", "step2"} -> GStep [] k \in {"swing", "switch"} -> GOne(k) [] OTHER -> GLook
GSpec == hist = <<>> /\ rb = <<>> /\ any = 0 /\ [][GNext]_<<hist, rb, any>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
