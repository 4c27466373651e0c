---------------------------- MODULE SolverNumGen ----------------------------
(* Optimal control problems, solvers and sequences of solves to run them on. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT NSolves
VARIABLES pr, hist, n
R(S, x) == RandomElement(S)
Vec(S, m, x) == TLCEval([i \in 1..m |-> RandomElement(S)])
Mat(S, r, c, x) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(S)])])
Sym(D, S, m, x) == LET u == Mat(S, m, m, x) d == Vec(D, m, x) IN [i \in 1..m |-> [j \in 1..m |-> IF i = j THEN d[i] ELSE IF i < j THEN u[i][j] ELSE u[j][i]]]
Str(v) == [i \in 1..Len(v) |-> ToString(v[i])]
Small == -1..1
\* flavour: "lq" strictly convex linear-quadratic; "nl" bilinear dynamics; "bad" also indefinite costs and failing regions
Node(fl, nx, nu, ng, nh, lim, term, x) ==
  LET conv == fl \in {"lq", "nl"}
      D == IF conv THEN {6, 7, 9} ELSE {-2, 0, 1, 3, 6}
      lo == Vec(-2..0, nu, x)
  IN TLCEval([op |-> "node", term |-> term, nu |-> nu,
      A |-> Mat(Small, nx, nx, x), B |-> Mat(-2..2, nx, nu, x), c |-> Vec(Small, nx, x),
      e |-> IF fl = "lq" THEN "0" ELSE R({"0", "1/4", "-1/4", "1/2"}, x), f |-> IF fl = "lq" THEN "0" ELSE R({"0", "1/4", "-1/2"}, x),
      Q |-> Sym(D, Small, nx, x), N |-> Mat(Small, nx, nu, x), R |-> Sym(IF conv THEN D ELSE {-1, 0, 1, 4, 6}, Small, nu, x),
      q |-> Vec(-2..2, nx, x), r |-> Vec(-2..2, nu, x), w |-> IF fl = "lq" THEN "0" ELSE R({"0", "0", "1", "2"}, x),
      nanat |-> IF fl = "bad" THEN R({"1", "2", "4", "1000000"}, x) ELSE "1000000000000000",
      Gx |-> Mat(Small, ng, nx, x), Gu |-> Mat(Small, ng, nu, x), gc |-> Vec(-2..2, ng, x), glb |-> Vec({"-1", "-inf", "-2", "0"}, ng, x), gub |-> Vec({"0", "1", "inf", "2"}, ng, x),
      Hx |-> Mat(Small, nh, nx, x), Hu |-> [i \in 1..nh |-> [j \in 1..nu |-> IF i = j THEN R({1, 2, -1}, x) ELSE IF j < i THEN 0 ELSE R(Small, x)]], hc |-> Vec(-2..2, nh, x),
      lim |-> lim, lb |-> IF lim THEN [i \in 1..nu |-> IF R(0..4, x) = 0 THEN "-inf" ELSE ToString(lo[i])] ELSE <<>>,
      ub |-> IF lim THEN [i \in 1..nu |-> IF R(0..6, x) = 0 THEN "inf" ELSE R({ToString(lo[i] + 1), ToString(lo[i] + 2)}, x)] ELSE <<>>])
Problem(x) ==
  LET nx == R(1..3, x) T == R({1, 2, 2, 3, 4}, x) pad == R({0, 0, 1}, x) fl == R({"lq", "lq", "nl", "nl", "bad"}, x) kind == R({"ddp", "fddp", "boxddp", "boxfddp", "intro", "intro", "kkt"}, x)
      box == kind \in {"boxddp", "boxfddp"} /\ R(0..4, x) # 0
      hom == R(1..2, x)
      nus == TLCEval([t \in 1..T |-> IF kind = "kkt" THEN R({1, 1, 2}, x) ELSE R({hom, hom, hom, 1, 2, 3, IF fl = "lq" THEN 1 ELSE 0}, x)])
      nhs == TLCEval([t \in 1..T |-> IF kind = "intro" /\ fl # "kkt" THEN IF nus[t] = 0 THEN 0 ELSE R(0..nus[t], x) ELSE IF R(0..3, x) = 0 THEN 1 ELSE 0])
      noeq == kind = "intro" /\ R(0..2, x) = 0
  IN TLCEval([nx |-> nx, pad |-> pad, T |-> T, nus |-> nus, kind |-> kind, fl |-> fl, x0 |-> Vec(-2..2, nx + pad, x),
      lq |-> fl = "lq" /\ ~box /\ (kind # "intro" \/ noeq),
      nodes |-> [t \in 1..T |-> Node(fl, nx, nus[t], R({0, 0, 1, 2}, x), IF noeq THEN 0 ELSE nhs[t], box /\ nus[t] > 0 /\ R(0..3, x) # 0, FALSE, x)]
                \o <<Node(fl, nx, 0, R({0, 1, 2}, x), R({0, 0, 1}, x), FALSE, TRUE, x)>>])
ProbOps(p, x) == << [op |-> "prob", n |-> p.nx, pad |-> p.pad, x0 |-> p.x0] >> \o p.nodes \o
   << [op |-> "solver", kind |-> p.kind, lq |-> p.lq, rmin |-> IF p.lq THEN "0" ELSE R({"0", "1/1024", "1/1000000000"}, x), rmax |-> R({"1000", "1000000000"}, x),
       thA |-> R({"1/10", "1/2"}, x), al |-> R({<<"1", "0.5", "0.25", "0.0625">>, <<"1", "0.5", "0.25", "0.0625">>, <<"0.5", "0.25", "0.0625">>, <<"0.75", "0.125">>}, x), eq |-> R({"lu", "qr", "schur"}, x), zu |-> R(BOOLEAN, x), norm |-> R({"inf", "one"}, x)] >>
\* guesses: the zero one of the problem (feasibly rolled out by the driver when flagged), or a random one
Solve(p, x) == [op |-> "solve", max |-> R({1, 2, 3, 5}, x), reg |-> IF p.lq THEN "0" ELSE R({"nan", "nan", "1", "0", "1/8"}, x),
   feas |-> R({FALSE, FALSE, TRUE}, x), roll |-> FALSE, probes |-> R({<<>>, <<"0.5">>, <<"1", "0.25">>, <<"0.5", "1">>}, x),
   xs |-> [t \in 1..(p.T + 1) |-> Vec(-2..2, p.nx + p.pad, x)], us |-> [t \in 1..p.T |-> Vec(-2..2, p.nus[t], x)]]
Init == pr = <<>> /\ hist = <<>> /\ n = -1
Pose == n = -1 /\ \E p \in {Problem(hist)} : pr' = p /\ hist' = ProbOps(p, hist) /\ n' = 0
AddSolve == n >= 0 /\ n < NSolves /\ \E v \in {Solve(pr, hist)} : hist' = Append(hist, [v EXCEPT !.roll = v.feas]) /\ n' = n + 1 /\ UNCHANGED pr
Next == Pose \/ AddSolve
Spec == Init /\ [][Next]_<<pr, hist, n>>
Done == n = NSolves => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
