------------------------------ MODULE RobotDynGen -----------------------------
EXTENDS Robots, Json
CONSTANTS MaxOps
VARIABLES hist, rb, st, ds
Log(op) == hist' = Append(hist, op)
Nv == SumNv(rb.jk)
Nq == SumNq(rb.jk)
Nm == <<"a", "b", "c">>
Cn == <<"p", "q", "r">>
Gains == {<<"0", "0">>, <<"1", "0">>, <<"0", "2">>, <<"3", "1/2">>}
Nc(k) == CASE k = "1d" -> 1 [] k = "2d" -> 2 [] k = "3d" -> 3 [] OTHER -> 6
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Nc(s[1].k) + Sum(Tail(s))
NAct == CASE st.act = "full" -> Nv [] st.act = "base" -> Nv - 6 [] OTHER -> Len(st.on)
Nu == CASE st.k \in {"ff", "cf"} -> NAct [] st.k = "fi" -> Nv [] st.k = "ci" -> Nv + Sum(st.con) [] OTHER -> 0
Fwd == st.k \in {"ff", "cf"}
RECURSIVE Mask(_, _, _)
Mask(n, i, x) == IF i = n THEN <<>> ELSE (IF R(1..3, x) > 1 THEN <<i>> ELSE <<>>) \o Mask(n, i + 1, x)
Some(m, n) == IF m = <<>> THEN <<n - 1>> ELSE m
GNew == \E free \in One(R(1..2, 0) = 1), k \in One(R({"ff", "cf", "cf2", "fi", "ci", "ci2", "im", "im2"}, 0)) : \E n \in One(IF free THEN R(0..2, 0) ELSE R(2..4, 0)) : \E r \in One(Robot(free, n, 3, 0)) :
        \E on \in One(Some(Mask(SumNv(r.jk), 0, 0), SumNv(r.jk))), act \in One(IF free /\ n > 0 THEN R({"full", "base", "base2", "part"}, 0) ELSE R({"full", "part"}, 0)), z \in One(R(BOOLEAN, 0)), mu \in One(R({"0", "1/2", "1/8"}, 0)) :
        \E kk \in One(CASE k = "cf2" -> "cf" [] k = "ci2" -> "ci" [] k = "im2" -> "im" [] OTHER -> k) :
        LET inv == kk \in {"fi", "ci", "im"} IN
        \E p \in One([k |-> kk, act |-> IF act = "base2" THEN "base" ELSE act, on |-> on, ac |-> IF inv THEN "0" ELSE R({"0", "1/4"}, 0), as |-> IF inv THEN "0" ELSE R({"0", "0", "1/2"}, 0), ak |-> IF inv THEN "0" ELSE R({"0", "1/4"}, 0),
                  mu |-> IF kk = "cf" /\ ~free THEN (IF mu = "0" THEN "1/4" ELSE mu) ELSE mu, rc |-> IF kk = "im" THEN R({"0", "1/2", "1"}, 0) ELSE "0", force |-> IF z THEN TRUE ELSE R(BOOLEAN, 0)]) :
        /\ rb' = r /\ ds' = {} /\ Log(r @@ p @@ [op |-> "new"])
        /\ st' = p @@ [free |-> free, con |-> <<>>, cost |-> <<>>, user |-> 0, made |-> FALSE, off |-> {}]
\* contacts, each on its own frame
GCon == \E i \in One(Len(st.con) + 1) : \E k \in One(IF st.k = "im" THEN R({"3d", "6d"}, 0) ELSE IF st.k = "ci" THEN R({"1d", "3d", "6d"}, 0) ELSE R({"1d", "2d", "3d", "6d"}, 0)), on \in One(R(1..3, 0) # 1) :
        \E c \in One([k |-> k, fr |-> i, ty |-> R({"L", "W", "A"}, 0), g |-> R(Gains, 0), Ra |-> IF k = "1d" THEN <<"1", "0", "0", "0", "1", "0", "0", "0", "1">> ELSE RotMaybe(0), Rr |-> TLCEval(Flat9(Rot(0))), pr |-> Vec(3, Sm)]) :
        /\ Log(c @@ [op |-> "con", n |-> Nm[i], id |-> i, on |-> on]) /\ st' = [st EXCEPT !.con = Append(st.con, c), !.off = IF on THEN st.off ELSE st.off \cup {i}] /\ UNCHANGED <<rb, ds>>
OnForce == {i \in 1..Len(st.con) : st.con[i].k # "2d"}
CostKinds == {"x", "pos", "rot", "pla", "com", "vel"} \cup (IF st.k # "im" THEN {"u", "acc", "tau"} \cup ({"mom"}) ELSE IF st.force THEN {"dvc", "mom"} ELSE {"mom"})
             \cup (IF OnForce # {} /\ (st.k = "ci" \/ (st.k \in {"cf", "im"} /\ st.force)) THEN {"fc", "fc2", "fc3"} ELSE {})
Ref(r) == CASE r = "x" -> Point(rb.jk, 0) [] r = "u" -> Vec(Nu, Sm) [] r = "acc" -> Vec(Nv, Sm) [] r = "tau" -> Vec(NAct, Sm) [] r = "rot" -> TLCEval(Flat9(Rot(0))) [] r = "pla" -> TLCEval(Flat9(Rot(0))) \o Vec(3, Sm)
            [] r \in {"mom", "vel", "fc"} -> Vec(6, Sm) [] r = "dvc" -> <<>> [] OTHER -> Vec(3, Sm)
GCost == \E i \in One(Len(st.cost) + 1), r0 \in One(R(CostKinds, 0)) : \E r \in One(IF r0 \in {"fc2", "fc3"} THEN "fc" ELSE r0) :
         /\ Log([op |-> "cost", n |-> Cn[i], id |-> i, r |-> r, fr |-> IF r = "fc" THEN R(OnForce, 0) ELSE R(1..3, 0), ty |-> R({"L", "W", "A"}, 0), ref |-> Ref(r), w |-> R({"1", "1/2", "2"}, 0)])
         /\ st' = [st EXCEPT !.cost = Append(st.cost, r)] /\ UNCHANGED <<rb, ds>>
GUser == \E i \in One(st.user + 1), r \in One(R({"x", "pos", "com"}, 0)), eq \in One(R(BOOLEAN, 0)) : \E ref \in One(Ref(r)) :
         LET n == IF r = "x" THEN 2 * Nv ELSE 3 IN
         /\ Log([op |-> "user", n |-> IF i = 1 THEN "n1" ELSE "n2", id |-> i, r |-> r, fr |-> R(1..3, 0), ty |-> "L", ref |-> ref, eq |-> eq, lo |-> [j \in 1..n |-> "-1"], hi |-> [j \in 1..n |-> "1"]])
         /\ st' = [st EXCEPT !.user = i] /\ UNCHANGED <<rb, ds>>
GMake == \E bad \in One(IF st.k # "im" /\ R(1..8, 0) = 1 THEN (IF st.k \in {"cf", "ci"} THEN R({"cost", "con"}, 0) ELSE "cost") ELSE "") :
         /\ Log([op |-> "make", bad |-> bad]) /\ st' = [st EXCEPT !.made = bad = ""] /\ UNCHANGED <<rb, ds>>
GData == \E d \in One(R(1..2, 0)) : Log([op |-> "data", d |-> d]) /\ ds' = ds \cup {d} /\ UNCHANGED <<rb, st>>
GStatus == \E i \in One(R(1..Len(st.con), 0)), on \in One(R(BOOLEAN, 0)) : Log([op |-> "status", n |-> Nm[i], id |-> i, on |-> on]) /\ st' = [st EXCEPT !.off = IF on THEN st.off \ {i} ELSE st.off \cup {i}] /\ UNCHANGED <<rb, ds>>
GArm == Log([op |-> "arm", v |-> Vec(IF R(1..6, 0) = 1 THEN Nv + 1 ELSE Nv, {"0", "1/8", "1/2", "1"})]) /\ UNCHANGED <<rb, st, ds>>
GMu == \E v \in One(R({"1/2", "1/8", "1/4", "-1/8"}, 0)) : Log([op |-> "mu", v |-> v]) /\ st' = [st EXCEPT !.mu = IF v = "-1/8" THEN st.mu ELSE v] /\ UNCHANGED <<rb, ds>>
GRc == Log([op |-> "rc", v |-> R({"0", "1/2", "1", "-1/4"}, 0)]) /\ UNCHANGED <<rb, st, ds>>
GCast == Log([op |-> "cast"]) /\ ds' = {} /\ UNCHANGED <<rb, st>>
\* without damping the contacts must be independent: at most one, held by a free base
Solvable == st.k \notin {"cf", "im"} \/ st.mu # "0" \/ Len(st.con) - 0 <= (IF st.free THEN 1 ELSE 0) \/ {i \in 1..Len(st.con) : i \notin st.off} = {}
GEval == Log([op |-> "eval", d |-> R(ds, 0), x |-> Point(rb.jk, 0), u |-> Vec(Nu, Sm), e |-> Disp(rb.jk, 0), eu |-> Vec(Nu, Sm)]) /\ UNCHANGED <<rb, st, ds>>
GTerm == Log([op |-> "term", d |-> R(ds, 0), x |-> Point(rb.jk, 0), e |-> Disp(rb.jk, 0), grad |-> \A i \in 1..Len(st.cost) : st.cost[i] \in {"x", "pos", "rot", "pla", "com", "u"}]) /\ UNCHANGED <<rb, st, ds>>
GQuasi == Log([op |-> "quasi", d |-> R(ds, 0), x |-> Point(rb.jk, 0), nu |-> IF R(1..8, 0) = 1 THEN Nu + 1 ELSE Nu]) /\ UNCHANGED <<rb, st, ds>>
GBad == \E w \in One(R(IF st.k = "im" THEN {"calc", "diff", "term", "termd"} ELSE IF st.k = "fi" THEN {"calc", "diff", "term", "termd", "calcu", "diffu"} ELSE {"calc", "diff", "term", "termd", "quasi", "calcu", "diffu"}, 0)) : \E b \in One(IF w = "calcu" THEN "calc" ELSE IF w = "diffu" THEN "diff" ELSE w) :
        Log([op |-> "bad", d |-> R(ds, 0), w |-> b, x |-> Vec(IF w = b THEN Nq + Nv + R({-1, 1}, 0) ELSE Nq + Nv, Sm), u |-> Vec(IF w = b THEN Nu ELSE Nu + 1, Sm)]) /\ UNCHANGED <<rb, st, ds>>
Room == Len(st.con) < 3 /\ (st.k \in {"cf", "ci"} => Sum(st.con) <= 6)
Build == (IF Room /\ st.k \in {"cf", "ci", "im"} /\ st.cost = <<>> THEN {"con", "con2"} ELSE {}) \cup (IF Len(st.cost) < 3 THEN {"cost"} ELSE {}) \cup (IF st.user < 2 THEN {"user"} ELSE {})
Use == {"bad"} \cup (IF Solvable THEN {"eval", "eval2", "eval3", "eval4", "term"} ELSE {}) \cup (IF st.k \notin {"cf", "ff"} \/ st.act # "part" \/ st.as = "0" THEN {"quasi"} ELSE {})
Kinds == IF rb = <<>> THEN {"new"}
         ELSE IF ~st.made THEN (IF (st.k \in {"cf", "ci", "im"} /\ st.con = <<>> /\ R(1..6, 0) > 1) \/ st.cost = <<>> THEN (IF Build = {} THEN {"make"} ELSE Build) ELSE Build \cup {"make", "make2"})
         ELSE IF ds = {} THEN {"data"}
         ELSE {"data"} \cup Use \cup (IF st.con # <<>> THEN {"status", "status2"} ELSE {}) \cup (IF st.k \in {"ff", "cf", "im"} THEN {"arm"} ELSE {}) \cup (IF st.k \in {"cf", "im"} THEN {"mu"} ELSE {}) \cup (IF st.k = "im" THEN {"rc"} ELSE {})
              \cup (IF R(1..5, 0) = 1 THEN {"cast", "new"} ELSE {})
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Kinds, 0)) :
            CASE k = "new" -> GNew [] k \in {"con", "con2"} -> GCon [] k = "cost" -> GCost [] k = "user" -> GUser [] k \in {"make", "make2"} -> GMake [] k = "data" -> GData [] k \in {"status", "status2"} -> GStatus [] k = "arm" -> GArm
              [] k = "mu" -> GMu [] k = "rc" -> GRc [] k = "cast" -> GCast [] k \in {"eval", "eval2", "eval3", "eval4"} -> GEval [] k = "term" -> GTerm [] k = "quasi" -> GQuasi [] OTHER -> GBad
GSpec == hist = <<>> /\ rb = <<>> /\ st = <<>> /\ ds = {} /\ [][GNext]_<<hist, rb, st, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
