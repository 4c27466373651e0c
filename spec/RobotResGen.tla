------------------------------ MODULE RobotResGen -----------------------------
EXTENDS Robots, Json
CONSTANTS MaxOps
VARIABLES hist, rb, st, ds
Log(op) == hist' = Append(hist, op)
Nv == SumNv(rb.jk)
Nm == <<"a", "b", "c">>
Nc(k) == CASE k = "1d" -> 1 [] k = "2d" -> 2 [] k = "3d" -> 3 [] OTHER -> 6
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Nc(s[1].k) + Sum(Tail(s))
Total == Sum(st.con)
NAct == CASE st.act = "full" -> Nv [] st.act = "base" -> Nv - 6 [] OTHER -> Len(st.on)
Nu == IF st.imp THEN 0 ELSE IF st.fwd THEN NAct ELSE Nv + Total
ForceKinds == {"fc", "fcone", "wcone", "cop"}
RECURSIVE Mask(_, _, _)
Mask(n, i, x) == IF i = n THEN <<>> ELSE (IF R(1..3, x) > 1 THEN <<i>> ELSE <<>>) \o Mask(n, i + 1, x)
Some(m, n) == IF m = <<>> THEN <<n - 1>> ELSE m
GNew == \E free \in One(R(1..2, 0) = 1), k0 \in One(R({"x", "mom", "com", "pos", "rot", "pla", "vel", "fc", "fcone", "wcone", "cop", "fc2", "fcone2", "wcone2", "cop2", "grav", "cgrav", "dvc"}, 0)) :
        \E n \in One(IF free THEN R(0..2, 0) ELSE R(2..4, 0)) : \E r \in One(Robot(free, n, 3, 0)) :
        \E on \in One(Some(Mask(SumNv(r.jk), 0, 0), SumNv(r.jk))), act \in One(IF free /\ n > 0 THEN R({"full", "base", "part"}, 0) ELSE R({"full", "part"}, 0)) :
        \E k \in One(CASE k0 = "fc2" -> "fc" [] k0 = "fcone2" -> "fcone" [] k0 = "wcone2" -> "wcone" [] k0 = "cop2" -> "cop" [] OTHER -> k0) :
        \E imp \in One(IF k = "dvc" THEN R(1..8, 0) > 1 ELSE IF k \in {"grav", "cgrav"} THEN FALSE ELSE R(1..3, 0) = 1) :
        \E p \in One([k |-> k, act |-> act, on |-> on, imp |-> imp, fwd |-> IF k \in ForceKinds /\ ~imp THEN R(BOOLEAN, 0) ELSE TRUE]) :
        /\ rb' = r /\ ds' = {} /\ Log(r @@ p @@ [op |-> "new"]) /\ st' = p @@ [free |-> free, con |-> <<>>, made |-> FALSE, nf |-> 4, fr |-> 1]
GCon == \E i \in One(Len(st.con) + 1) : \E k \in One(IF st.imp THEN R({"3d", "6d"}, 0) ELSE IF st.k = "fcone" THEN R({"2d", "3d", "6d"}, 0) ELSE IF st.k \in {"wcone", "cop"} THEN R({"6d", "6d2", "6d3", "3d"}, 0) ELSE R({"1d", "2d", "3d", "6d"}, 0)) :
        \E kk \in One(IF k \in {"6d2", "6d3"} THEN "6d" ELSE k) :
        \E c \in One([k |-> kk, fr |-> i, ty |-> R({"L", "W", "A"}, 0), g |-> <<"0", "0">>, Ra |-> <<"1", "0", "0", "0", "1", "0", "0", "0", "1">>, Rr |-> TLCEval(Flat9(Rot(0))), pr |-> Vec(3, Sm)]) :
        /\ Log(c @@ [op |-> "con", n |-> Nm[i], id |-> i]) /\ st' = [st EXCEPT !.con = Append(st.con, c)] /\ UNCHANGED <<rb, ds>>
Cone(z) == [cR |-> TLCEval(Flat9(Rot(0))), cmu |-> R({"1/2", "3/4", "1"}, 0), box |-> Vec(2, {"1/8", "1/4", "1/2"}), inner |-> R(BOOLEAN, 0)]
Ref(n) == CASE st.k = "x" -> Point(rb.jk, 0) [] st.k = "rot" -> TLCEval(Flat9(Rot(0))) [] st.k = "pla" -> TLCEval(Flat9(Rot(0))) \o Vec(3, Sm)
            [] st.k \in {"mom", "vel", "fc"} -> Vec(6, Sm) [] st.k \in {"grav", "cgrav", "dvc"} \cup (ForceKinds \ {"fc"}) -> <<>> [] OTHER -> Vec(3, Sm)
AFrame == IF st.k \in ForceKinds /\ st.con # <<>> /\ R(1..6, 0) > 1 THEN R(1..Len(st.con), 0) ELSE R(1..3, 0)
GMake == \E bad \in One(R(1..7, 0) = 1 /\ st.k \in {"pos", "rot", "pla", "vel", "x", "grav", "cgrav"} \cup ForceKinds) : \E fr \in One(AFrame), nf \in One(R({4, 6, 8}, 0)), ref \in One(Ref(0)), cone \in One(Cone(0)) :
         \E nc \in One(IF fr <= Len(st.con) /\ st.k = "fc" THEN Nc(st.con[fr].k) ELSE 3), short \in One(st.fwd /\ Nu = Nv /\ R(BOOLEAN, 0)) :
         /\ Log(cone @@ [op |-> "make", fr |-> IF bad /\ st.k \notin {"x", "grav", "cgrav"} THEN 9 ELSE fr, nf |-> nf, nc |-> nc, ref |-> IF bad /\ st.k = "x" THEN Append(ref, "0") ELSE ref,
                         nu |-> IF bad /\ st.k \in {"grav", "cgrav"} THEN 0 ELSE Nu, fwd |-> st.fwd, short |-> IF bad /\ st.k \in {"grav", "cgrav"} THEN FALSE ELSE short, ty |-> R({"L", "W", "A"}, 0), bad |-> bad])
         /\ st' = [st EXCEPT !.made = ~bad, !.nf = nf, !.fr = fr] /\ UNCHANGED <<rb, ds>>
Mat(r, c) == TLCEval([i \in 1..r |-> Vec(c, Sm)])
Reads == IF \E i \in 1..Len(st.con) : st.con[i].fr = st.fr THEN CHOOSE i \in 1..Len(st.con) : st.con[i].fr = st.fr ELSE 0
Fits == CASE st.k = "fc" -> {"1d", "3d", "6d"} [] st.k = "fcone" -> {"2d", "3d", "6d"} [] OTHER -> {"6d"}
CanRead(plain) == CASE st.k = "x" -> TRUE [] st.k = "grav" -> ~plain /\ ~st.imp /\ st.con = <<>> [] st.k = "cgrav" -> ~plain /\ ~st.imp /\ st.con # <<>> [] st.k = "dvc" -> ~plain /\ st.imp
                    [] st.k \in ForceKinds -> ~plain /\ Reads # 0 /\ st.con[Reads].k \in Fits [] OTHER -> ~plain
GData == \E d \in One(R(1..2, 0)), plain \in One(R(1..10, 0) = 1) :
         /\ Log([op |-> "data", d |-> d, plain |-> plain, du |-> Mat(Total, Nu)]) /\ ds' = (IF CanRead(plain) THEN ds \cup {d} ELSE ds) /\ UNCHANGED <<rb, st>>
W(n) == Vec(n, {"0", "1", "1/2", "2"})
Nr == CASE st.k = "x" -> 2 * Nv [] st.k \in {"mom", "pla", "vel"} -> 6 [] st.k = "fc" -> Nc(st.con[Reads].k) [] st.k = "fcone" -> st.nf + 1 [] st.k = "wcone" -> st.nf + 13 [] st.k = "cop" -> 4 [] st.k \in {"grav", "cgrav"} -> Nv [] OTHER -> 3
GEval(run) == Log([op |-> IF run THEN "eval" ELSE "term", d |-> R(ds, 0), x |-> Point(rb.jk, 0), u |-> Vec(NAct, Sm), a |-> Vec(Nv, Sm), vn |-> Vec(Nv, Sm), dvn |-> Mat(Nv, 2 * Nv), e |-> Disp(rb.jk, 0), eu |-> Vec(Nu, Sm),
                   f |-> Vec(6 * Len(st.con), Sm), dx |-> Mat(Total, 2 * Nv), du |-> Mat(Total, Nu), w |-> W(Nr), fwd |-> st.fwd, plain |-> FALSE, ext |-> FALSE]) /\ UNCHANGED <<rb, st, ds>>
GRef == \E bad \in One(st.k = "x" /\ R(1..5, 0) = 1) : \E ref \in One(Ref(0)), cone \in One(Cone(0)) :
        Log(cone @@ [op |-> "ref", ref |-> IF bad THEN Append(ref, "0") ELSE ref, nf |-> st.nf, bad |-> bad]) /\ UNCHANGED <<rb, st, ds>>
\* another frame: for forces, one with a contact of the same kind, and data made anew
GId == \E fr \in One(R(1..3, 0)) : \E to \in One(IF st.k \in ForceKinds /\ (fr > Len(st.con) \/ (Reads # 0 /\ fr <= Len(st.con) /\ st.con[fr].k # st.con[Reads].k)) THEN st.fr ELSE fr) :
       Log([op |-> "id", fr |-> to]) /\ st' = [st EXCEPT !.fr = to] /\ ds' = (IF st.k \in ForceKinds THEN {} ELSE ds) /\ UNCHANGED rb
GType == Log([op |-> "type", ty |-> R({"L", "W", "A"}, 0)]) /\ UNCHANGED <<rb, st, ds>>
GCast == Log([op |-> "cast"]) /\ ds' = {} /\ UNCHANGED <<rb, st>>
Use == {"eval", "eval2", "eval3", "eval4", "term"}
HasRef == st.k \notin {"grav", "cgrav", "dvc"}
Kinds == IF rb = <<>> THEN {"new"}
         ELSE IF ~st.made THEN (IF Len(st.con) < 2 /\ (st.k \in ForceKinds \cup {"cgrav"} \/ st.imp \/ R(1..3, 0) = 1) THEN (IF st.con = <<>> THEN {"con"} ELSE {"con", "make"}) ELSE {"make"})
         ELSE (IF R(1..6, 0) = 1 \/ (ds = {} /\ R(1..3, 0) = 1) THEN {"new", "cast"} ELSE {}) \cup {"data"}
              \cup (IF ds = {} THEN {} ELSE Use \cup (IF HasRef THEN {"ref", "ref2"} ELSE {}) \cup (IF st.k \in {"pos", "rot", "pla", "vel"} \cup ForceKinds THEN {"id"} ELSE {}) \cup (IF st.k = "vel" THEN {"type"} ELSE {}))
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Kinds, 0)) :
            CASE k = "new" -> GNew [] k = "con" -> GCon [] k = "make" -> GMake [] k = "data" -> GData [] k \in {"ref", "ref2"} -> GRef [] k = "id" -> GId [] k = "type" -> GType [] k = "cast" -> GCast
              [] OTHER -> GEval(k # "term")
GSpec == hist = <<>> /\ rb = <<>> /\ st = <<>> /\ ds = {} /\ [][GNext]_<<hist, rb, st, ds>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
