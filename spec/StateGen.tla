------------------------------ MODULE StateGen ------------------------------
EXTENDS StateSpace, Json
CONSTANTS MaxOps
VARIABLES hist, n
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Nums == {"-2", "-1", "0", "1", "2", "1/2", "-1/4", "3", "5/8", "1000001/2"}
Vec(k, x) == TLCEval([i \in 1..k |-> RandomElement(Nums)])
Mat(r, c, x) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(Nums)])])
Log(op) == hist' = Append(hist, op)
\* the size of one chosen argument is off by one
Off(i, b) == IF b = 2 * i THEN n + 1 ELSE IF b = 2 * i + 1 /\ n > 1 THEN n - 1 ELSE n
W == {"both", "first", "second"}
GNext ==
  /\ Len(hist) < MaxOps
  /\ IF n = 0 THEN \E k \in One(R(1..5, 0)) : n' = k /\ Log([op |-> "new", n |-> k])
     ELSE \E c \in One(R({"new", "diff", "diff2", "move", "move2", "jdiff", "jdiff2", "jmove", "jmove2", "jmove3", "jmove4", "trans", "limit", "limit2", "limit3", "js"}, 0)), b \in One(R(0..12, 0)), w \in One(R(W, 0)), md \in One(R({"set", "add", "sub"}, 0)) :
       IF c = "new" THEN \E k \in One(R(1..5, 0)) : n' = k /\ Log([op |-> "new", n |-> k])
       ELSE /\ UNCHANGED n
            /\ CASE c \in {"diff", "diff2"} -> Log([op |-> "diff", x0 |-> Vec(Off(1, b), 0), x1 |-> Vec(Off(2, b), 0), no |-> Off(3, b)])
                 [] c \in {"move", "move2"} -> Log([op |-> "move", x |-> Vec(Off(1, b), 0), dx |-> Vec(Off(2, b), 0), no |-> Off(3, b)])
                 [] c \in {"jdiff", "jdiff2"} -> Log([op |-> "jdiff", x0 |-> Vec(n, 0), x1 |-> Vec(n, 0), w |-> w, a |-> Mat(Off(1, b), Off(2, b), 0), b |-> Mat(Off(3, b), Off(4, b), 0)])
                 [] c = "trans" -> Log([op |-> "trans", x |-> Vec(n, 0), dx |-> Vec(n, 0), w |-> w, a |-> Mat(n, IF b < 4 THEN b + 1 ELSE n, 0)])
                 [] c = "js" -> Log([op |-> "js", x |-> Vec(n, 0), dx |-> Vec(n, 0), w |-> w])
                 [] c \in {"limit", "limit2", "limit3"} -> \E inf \in One(R(BOOLEAN, 0)), up \in One(R(BOOLEAN, 0)) :
                      Log([op |-> "limit", up |-> up, v |-> [i \in 1..Off(1, b) |-> IF inf THEN (IF up THEN "inf" ELSE "-inf") ELSE RandomElement({"-1", "0", "2", "inf", "-inf", "nan"})]])
                 [] OTHER -> Log([op |-> "jmove", x |-> Vec(n, 0), dx |-> Vec(n, 0), w |-> w, mode |-> md, a |-> Mat(Off(1, b), Off(2, b), 0), b |-> Mat(Off(3, b), Off(4, b), 0)])
GSpec == hist = <<>> /\ n = 0 /\ [][GNext]_<<hist, n>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
