---------------------------- MODULE SolverHistGen ----------------------------
(* Histories of one solver: solves from guesses of every shape, aborted ones, changed and restored settings, edited problems. *)
EXTENDS SolverNumGen
CONSTANT NOps
VARIABLE set   \* settings that differ from the initial ones
hvars == <<pr, hist, n, set>>
HSolver(p, x) == [op |-> "solver", kind |-> p.kind, fl |-> p.fl, eq |-> R({"lu", "qr", "schur"}, x), norm |-> R({"inf", "one"}, x)]
HPose == n = -1 /\ \E p \in {Problem(hist)} : /\ pr' = p /\ n' = 0 /\ UNCHANGED set
   /\ hist' = <<[op |-> "prob", n |-> p.nx, pad |-> p.pad, x0 |-> p.x0]>> \o p.nodes \o <<HSolver(p, hist)>>
Op(ops) == hist' = hist \o ops /\ n' = n + 1
\* another node in the place of node t
NewNode(p, nu, x) == Node(p.fl, p.nx, nu, R({0, 0, 1}, x), IF p.kind = "intro" /\ nu > 0 THEN R(0..nu, x) ELSE 0, p.kind \in {"boxddp", "boxfddp"} /\ nu > 0 /\ R(0..2, x) # 0, FALSE, x)
NuOf(p, x) == IF p.kind = "kkt" THEN R({1, 2, 3}, x) ELSE R({0, 1, 1, 2, 2, 3}, x)
EditAt == \E t \in {R(1..pr.T, hist)}, nu \in {NuOf(pr, hist)}, k \in {R({"model", "node"}, hist)} :
   /\ Op(<<[op |-> "edit", kind |-> k, at |-> t - 1], NewNode(pr, nu, hist)>>) /\ pr' = [pr EXCEPT !.nus[t] = nu] /\ UNCHANGED set
EditEnd == \E k \in {R({"model", "node"}, hist)}, nh \in {R(0..1, hist)} :
   /\ Op(<<[op |-> "edit", kind |-> k, at |-> pr.T], Node(pr.fl, pr.nx, 0, R({0, 1}, hist), nh, FALSE, TRUE, hist)>>) /\ UNCHANGED <<pr, set>>
Append1 == \E nu \in {NuOf(pr, hist)}, k \in {R({"append", "appenddata"}, hist)} :
   /\ Op(<<[op |-> "edit", kind |-> k, at |-> 0], NewNode(pr, nu, hist)>>) /\ pr' = [pr EXCEPT !.nus = Append(Tail(pr.nus), nu)] /\ UNCHANGED set
X0 == Op(<<[op |-> "x0", x0 |-> Vec(-2..2, pr.nx + pr.pad, hist)]>>) /\ UNCHANGED <<pr, set>>
Defaults == [reg_min |-> "1/1000000000", reg_max |-> "1000000000", reg_inc |-> "10", reg_dec |-> "10", th_acceptstep |-> "1/10", alphas |-> "10", th_stop |-> "1/1000000000", th_stepinc |-> "1/100", th_grad |-> "1/1000000000000", th_neg |-> "2", rho |-> "3/10"]
Others == [reg_min |-> {"1/1024", "1/8"}, reg_max |-> {"1", "64"}, reg_inc |-> {"2", "100"}, reg_dec |-> {"2", "100"}, th_acceptstep |-> {"1/2", "1/100"}, alphas |-> {"1", "2", "4"}, th_stop |-> {"1/1000", "1"}, th_stepinc |-> {"1/2", "1"}, th_grad |-> {"1/1000"}, th_neg |-> {"0", "1/2"}, rho |-> {"1/2"}]
Change == \E k \in {R(DOMAIN Others, hist)} : \E v \in {R(Others[k], hist)} : Op(<<[op |-> "set", what |-> k, val |-> v]>>) /\ set' = set \cup {k} /\ UNCHANGED pr
Restore == set # {} /\ \E k \in {R(set, hist)} : Op(<<[op |-> "set", what |-> k, val |-> Defaults[k]]>>) /\ set' = set \ {k} /\ UNCHANGED pr
\* guesses: complete ones, missing parts, the wrong number of nodes, a wrong node
GX(g, x) == LET nx == pr.nx + pr.pad full == TLCEval([t \in 1..(pr.T + 1) |-> Vec(-2..2, nx, x)]) t == R(1..(pr.T + 1), x) IN
   CASE g \in {"full", "nous", "badus", "shortus", "roll"} -> full
     [] g \in {"noxs", "none"} -> <<>>
     [] g = "shortxs" -> Tail(full)
     [] g = "longxs" -> Append(full, full[1])
     [] g = "badxs" -> [full EXCEPT ![t] = Append(@, 0)]
     [] OTHER -> full
GU(g, x) == LET full == TLCEval([t \in 1..pr.T |-> Vec(-2..2, pr.nus[t], x)]) t == R(1..pr.T, x) IN
   CASE g \in {"nous", "none"} -> <<>>
     [] g = "shortus" /\ pr.T > 1 -> Tail(full)
     [] g = "badus" -> [full EXCEPT ![t] = Append(@, 0)]
     [] OTHER -> full
HSolve == \E g \in {R({"full", "full", "full", "roll", "roll", "nous", "noxs", "none", "shortxs", "longxs", "badxs", "badus", "shortus"}, hist)} :
   /\ Op(<<[op |-> "solve", max |-> R({1, 2, 3, 5, 8}, hist), reg |-> R({"nan", "nan", "1", "1/8"}, hist), feas |-> IF g = "roll" THEN TRUE ELSE R({FALSE, FALSE, FALSE, TRUE}, hist), roll |-> g = "roll",
             xs |-> GX(g, hist), us |-> GU(g, hist), abort |-> IF g \in {"full", "roll", "none"} THEN R({0, 0, 0, 1, 2}, hist) ELSE 0]>>)
   /\ UNCHANGED <<pr, set>>
Finish == n = NOps /\ n' = n + 1 /\ UNCHANGED <<pr, set>>
          /\ hist' = Append(hist, [op |-> "solve", max |-> 4, reg |-> "nan", feas |-> FALSE, roll |-> FALSE, xs |-> <<>>, us |-> <<>>, abort |-> 0])
HNext == HPose \/ Finish \/ (n >= 0 /\ n < NOps /\ (HSolve \/ HSolve \/ HSolve \/ HSolve \/ EditAt \/ Append1 \/ X0 \/ EditEnd \/ Change \/ Restore))
HSpec == Init /\ set = {} /\ [][HNext]_hvars
HDone == n = NOps + 1 => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
