------------------------------ MODULE RestGen -------------------------------
EXTENDS Rest, Json, FiniteSets
CONSTANTS MaxOps
VARIABLES hist, m, ds
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-2", "-1", "0", "1", "2", "1/2", "-1/4", "3", "-3/2"}
Vec(n, S, x) == TLCEval([i \in 1..n |-> RandomElement(S)])
Log(op) == hist' = Append(hist, op)
GInit == hist = <<>> /\ m = [k |-> "none"] /\ ds = {}
Free(nx, x) == TLCEval([i \in 1..nx |-> RandomElement(Nums)])
\* rows of the linear part: columns of the control independent, repeated, none, or next to nothing
Lin(r, nx, nw, shape, x) ==
  LET B == TLCEval([i \in 1..r |-> TLCEval([j \in 1..nw |-> RandomElement(Nums)])])
      e(i, j) == CASE shape = "copy" /\ j = nw /\ nw > 1 -> RMul("2", B[i][1])
                   [] shape = "tiny" /\ j = nw /\ nw > 1 -> RMul(B[i][j], "1/1000000000000000000")
                   [] shape = "big" -> RMul("1048576", IF j = nw /\ nw > 1 THEN RMul("3", B[i][1]) ELSE B[i][j])
                   [] shape = "small" -> RMul(B[i][j], "1/1000000")
                   [] shape = "zero" -> "0" [] OTHER -> B[i][j]
  IN TLCEval([i \in 1..r |-> TLCEval([j \in 1..(nx + nw) |-> IF j <= nx THEN RandomElement(Nums) ELSE e(i, j - nx)])])
GNew ==
  \E k \in One(R({"pa", "pa2", "pd", "pd2", "pd3", "lqr", "dlqr", "uni"}, 0)), heis \in One(R(1..5, 0) = 1), h \in One(R(1..3, 0)), w0 \in One(R({"none", "none2", "nd", "euler", "euler2", "rk2", "rk3", "rk4"}, 0)),
     ctrl \in One(R({"none", "zero", "one", "two3", "two4"}, 0)), nw0 \in One(R({0, 1, 1, 2, 2, 3}, 0)), shape \in One(R({"any", "any2", "any3", "copy", "zero", "tiny", "small", "big"}, 0)), nq \in One(R(0..3, 0)),
     dt \in One(R({"1/10", "1/4", "1", "0"}, 0)) :
  LET kk == IF k \in {"pa", "pa2"} THEN "pa" ELSE IF k \in {"pd", "pd2", "pd3"} THEN "pd" ELSE k
      dif == kk \in {"pd", "dlqr"}
      w == IF w0 \in {"none", "none2"} THEN "none" ELSE IF w0 = "nd" THEN "nd" ELSE IF ~dif THEN "none" ELSE IF w0 = "euler2" THEN "euler" ELSE w0
      hs == heis /\ kk \in {"pa", "pd"} /\ w # "nd"
      nw == IF kk = "uni" THEN 2 ELSE IF nw0 = 0 /\ (kk \notin {"pa", "pd"} \/ w # "none") THEN 1 ELSE nw0
      nx == IF hs THEN 6 ELSE IF kk = "uni" THEN 3 ELSE IF kk = "lqr" THEN h + 1 ELSE 2 * h
      r == IF kk \in {"pa", "lqr"} THEN nx ELSE nx \div 2
      n == IF kk \in {"pa", "pd"} /\ nw > 0 /\ shape \in {"any", "any2"} THEN nq ELSE 0 IN
  \E op \in One([op |-> "new", k |-> kk, w |-> w, ctrl |-> IF w \in {"none", "nd"} THEN "none" ELSE ctrl, st |-> IF hs THEN "heis" ELSE "vec", nx |-> nx, nw |-> nw, dt |-> IF kk = "uni" /\ dt = "0" THEN "1/2" ELSE dt,
             ac |-> IF kk = "uni" THEN <<>> ELSE Vec(r, Nums, 0), aL |-> IF kk = "uni" THEN <<>> ELSE Lin(r, nx, nw, shape, 0),
             ak |-> Vec(n, {"1/8", "-1/8", "1/16", "1/4"}, 0), ai |-> [e \in 1..n |-> <<RandomElement(1..r), nx + RandomElement(1..nw), RandomElement(1..(nx + nw))>>]]) :
  Log(op) /\ m' = op /\ ds' = {}
GData == \E d \in One(R(1..2, 0)) : Log([op |-> "data", d |-> d]) /\ ds' = ds \cup {d} /\ UNCHANGED m
GUse == \E d \in One(R(ds, 0)), bad \in One(R(1..3, 0) = 1) : Log([op |-> "use", d |-> d, x |-> Vec(m.nx, Nums, 0), u |-> Vec(NuAll(m), IF bad THEN {"nan", "inf", "1"} ELSE Nums, 0), diff |-> R(BOOLEAN, 0)]) /\ UNCHANGED <<m, ds>>
GStill == \E d \in One(R(ds, 0)) : Log([op |-> "still", d |-> d, x |-> Free(m.nx, 0)]) /\ UNCHANGED <<m, ds>>
GHold == \E d \in One(R(ds, 0)), b \in One(R(1..16, 0)), n \in One(R({0, 1, 1, 2, 3, 5, 100}, 0)), tol \in One(R({"1/1000000000", "1/1000000000", "1/2", "1", "4"}, 0)), dflt \in One(R(1..3, 0) = 1), ret \in One(R(1..3, 0) = 1), far \in One(R(BOOLEAN, 0)) :
         LET nu == NuAll(m)
             x == Vec(IF b = 1 THEN m.nx + 1 ELSE IF b = 2 THEN m.nx - 1 ELSE m.nx, {"0"}, 0) y == Free(Len(x), 0) c == m.nx \div 2 IN
         Log([op |-> "hold", d |-> d, x |-> [i \in 1..Len(x) |-> IF m.k = "uni" THEN (IF i < 3 THEN y[i] ELSE "0") ELSE IF i <= c \/ (m.k = "lqr" /\ i <= (m.nx + 1) \div 2) THEN y[i] ELSE "0"],
              u |-> Vec(IF ret THEN nu ELSE IF b = 3 THEN nu + 1 ELSE IF b = 4 /\ nu > 0 THEN nu - 1 ELSE nu, IF far THEN Nums ELSE {"0"}, 0), n |-> IF dflt THEN 100 ELSE n, tol |-> IF dflt THEN "1/1000000000" ELSE tol, dflt |-> dflt, ret |-> ret]) /\ UNCHANGED <<m, ds>>
GNext == /\ Len(hist) < MaxOps
         /\ IF m.k = "none" THEN GNew ELSE IF ds = {} THEN GData
            ELSE \E c \in One(R({"new", "data", "use", "use2", "hold", "hold2", "hold3", "hold4", "hold5"} \cup (IF m.k \in {"pa", "pd"} /\ m.w = "none" /\ m.nw > 0 THEN {"still"} ELSE {}), 0)) :
                 CASE c = "new" -> GNew [] c = "data" -> GData [] c \in {"use", "use2"} -> GUse [] c = "still" -> GStill [] OTHER -> GHold
GSpec == GInit /\ [][GNext]_<<hist, m, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
