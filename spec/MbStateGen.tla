------------------------------ MODULE MbStateGen -----------------------------
EXTENDS Robots, Json
CONSTANTS MaxOps
VARIABLES hist, rb, act, ds \* the robot, the actuation's kind and sizes, its data
Log(op) == hist' = Append(hist, op)
Nv == SumNv(rb.jk)
Nx == SumNq(rb.jk) + Nv
Nr == IF rb.root THEN Nvs(rb.jk[1]) ELSE 0
Mat(r, c) == TLCEval([i \in 1..r |-> Vec(c, Sm)])
Off(n, i, b) == IF b = 2 * i THEN n + 1 ELSE IF b = 2 * i + 1 THEN n - 1 ELSE n
Pad(v, n) == IF Len(v) >= n THEN SubSeq(v, 1, n) ELSE v \o [i \in 1..(n - Len(v)) |-> "0"]
Thr(n) == [tR |-> TLCEval([i \in 1..n |-> Flat9(Rot(0))]), tt |-> TLCEval([i \in 1..n |-> Vec(3, Sm)]), tc |-> Vec(n, {"0", "1/10", "1/4"}), tw |-> TLCEval([i \in 1..n |-> RandomElement(0..1)])]
GNew == \E free \in One(R(1..2, 0) = 1) : \E n \in One(IF free THEN R(0..2, 0) ELSE R(1..3, 0)) : \E r \in One(Robot(free, n, 0, 0)) :
        rb' = r /\ act' = <<>> /\ ds' = {} /\ Log(r @@ [op |-> "new"])
Same == UNCHANGED <<rb, act, ds>>
GState ==
  \E c \in One(R({"diff", "move", "move2", "jdiff", "jdiff2", "jmove", "jmove2", "jmove3", "trans", "trans2", "js", "limit", "cast"}, 0)), b \in One(R(2..20, 0)), w \in One(R({"both", "first", "second"}, 0)), md \in One(R({"set", "add", "sub"}, 0)) :
  /\ Same
  /\ CASE c = "diff" -> Log([op |-> "diff", x0 |-> Pad(Point(rb.jk, 0), Off(Nx, 1, b)), x1 |-> Pad(Point(rb.jk, 0), Off(Nx, 2, b)), no |-> Off(2 * Nv, 3, b)])
       [] c \in {"move", "move2"} -> Log([op |-> "move", x |-> Pad(Point(rb.jk, 0), Off(Nx, 1, b)), dx |-> Pad(Disp(rb.jk, 0), Off(2 * Nv, 2, b)), no |-> Off(Nx, 3, b)])
       [] c \in {"jdiff", "jdiff2"} -> Log([op |-> "jdiff", x |-> Point(rb.jk, 0), y |-> Point(rb.jk, 0), e |-> Disp(rb.jk, 0), w |-> w, mode |-> "set", a |-> Mat(Off(2 * Nv, 2, b), Off(2 * Nv, 3, b)), b |-> Mat(Off(2 * Nv, 4, b), Off(2 * Nv, 5, b))])
       [] c \in {"trans", "trans2"} -> Log([op |-> "trans", x |-> Point(rb.jk, 0), y |-> Disp(rb.jk, 0), e |-> Disp(rb.jk, 0), w |-> w, mode |-> "set", a |-> Mat(2 * Nv, IF b < 5 THEN b + 1 ELSE 2 * Nv), b |-> <<>>])
       [] c = "js" -> Log([op |-> "js", x |-> Point(rb.jk, 0), y |-> Disp(rb.jk, 0), e |-> Disp(rb.jk, 0), w |-> w, mode |-> "set", a |-> <<>>, b |-> <<>>])
       [] c = "limit" -> \E up \in One(R(BOOLEAN, 0)) : Log([op |-> "limit", up |-> up, v |-> TLCEval([i \in 1..Off(Nx, 1, b) |-> IF up THEN R({"1", "2", "inf", "100"}, 0) ELSE R({"-1", "-2", "-inf", "-100"}, 0)])])
       [] c = "cast" -> Log([op |-> "cast", x |-> Point(rb.jk, 0), dx |-> Disp(rb.jk, 0)])
       [] OTHER -> Log([op |-> "jmove", x |-> Point(rb.jk, 0), y |-> Disp(rb.jk, 0), e |-> Disp(rb.jk, 0), w |-> w, mode |-> md, a |-> Mat(Off(2 * Nv, 2, b), Off(2 * Nv, 3, b)), b |-> Mat(Off(2 * Nv, 4, b), Off(2 * Nv, 5, b))])
GAct == \E k \in One(R({"float", "full", "thr", "thr2"}, 0)), n \in One(R(1..5, 0)) :
        LET kk == IF k = "thr2" THEN "thr" ELSE k ok == kk # "thr" \/ (rb.root /\ Nr = 6) IN
        IF (kk = "thr" /\ rb.root /\ Nr # 6) \/ (kk = "float" /\ Nv = Nr) THEN UNCHANGED <<hist, rb, act, ds>>
        ELSE /\ Log([op |-> "act", k |-> kk] @@ Thr(IF kk = "thr" THEN n ELSE 0)) /\ UNCHANGED rb
             /\ IF ok THEN act' = [k |-> kk, n |-> n, nu |-> CASE kk = "full" -> Nv [] kk = "float" -> Nv - Nr [] OTHER -> (Nv - Nr) + n] /\ ds' = {} ELSE UNCHANGED <<act, ds>>
GEval == \E d \in One(R(ds, 0)), b \in One(R(1..14, 0)), o \in One(R({"cdtm", "cdtm", "ctm", "mtcd", "cd", "tm"}, 0)) :
         /\ Same
         /\ Log([op |-> "aeval", d |-> d, x |-> Point(rb.jk, 0), u |-> Vec(IF b = 1 THEN act.nu + 1 ELSE act.nu, Sm), tau |-> Vec(IF b = 2 /\ act.k # "thr" THEN Nv + 1 ELSE Nv, Sm), ord |-> o, cast |-> b \in 10..14])
GThr == \E b \in One(R(1..6, 0)) : Same /\ Log([op |-> "thr"] @@ Thr(IF b = 1 THEN act.n + 1 ELSE act.n))
Kinds == IF rb = <<>> THEN {"new"} ELSE {"new", "state", "state2", "state3", "state4", "act"} \cup (IF act = <<>> THEN {} ELSE {"data"} \cup (IF act.k = "thr" THEN {"thr", "thr2"} ELSE {}) \cup (IF ds = {} THEN {} ELSE {"eval", "eval2", "eval3"}))
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Kinds, 0)) :
            CASE k = "new" -> GNew [] k \in {"state", "state2", "state3", "state4"} -> GState [] k = "act" -> GAct [] k \in {"thr", "thr2"} -> GThr
              [] k = "data" -> \E d \in One(R(1..3, 0)) : Log([op |-> "data", d |-> d]) /\ ds' = ds \cup {d} /\ UNCHANGED <<rb, act>>
              [] OTHER -> GEval
GSpec == hist = <<>> /\ rb = <<>> /\ act = <<>> /\ ds = {} /\ [][GNext]_<<hist, rb, act, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
