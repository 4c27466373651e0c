------------------------------ MODULE ContactsGen -----------------------------
EXTENDS Robots, Json
CONSTANTS MaxOps
VARIABLES hist, rb, st, ds, b, cur \* the robot, the stack, data slots and the births they hold, births, the slot evaluated last
Log(op) == hist' = Append(hist, op)
Nv == SumNv(rb.jk)
Nq == SumNq(rb.jk)
Nm == <<"a", "b", "c", "d", "e">>
Nc(k) == CASE k = "1d" -> 1 [] k = "2d" -> 2 [] k = "3d" -> 3 [] OTHER -> 6
Gains == {<<"0", "0">>, <<"1", "0">>, <<"0", "2">>, <<"3", "1/2">>}
Id9 == <<"1", "0", "0", "0", "1", "0", "0", "0", "1">>
Item(what, nf, nu, x) ==
  LET k == TLCEval(IF what = "con" THEN R({"1d", "2d", "3d", "6d"}, x) ELSE R({"3d", "6d"}, x)) g == TLCEval(R(Gains, x)) ax == TLCEval(RotMaybe(x)) IN
  [k |-> k, fr |-> R(1..nf, x), ty |-> R({"L", "W", "A"}, x), g |-> g, Ra |-> ax, Rr |-> TLCEval(Flat9(Rot(x))),
   pr |-> IF k = "1d" /\ ax # Id9 THEN <<"0", "0", "0">> ELSE Vec(3, Sm), nu |-> nu]
\* a stack is a function from used ids to [on, n, b]
Ids == DOMAIN st.it
RECURSIVE Sum(_, _)
Sum(S, all) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN (IF all \/ st.it[i].on THEN Nc(st.it[i].k) ELSE 0) + Sum(S \ {i}, all)
Rows == Sum(Ids, st.all)
GNew == \E free \in One(R(1..2, 0) = 1) : \E n \in One(IF free THEN R(0..2, 0) ELSE R(2..4, 0)) : \E nf \in One(R(2..3, 0)), what \in One(R({"con", "con", "con2", "imp"}, 0)), nu \in One(R(1..3, 0)) : \E r \in One(Robot(free, n, nf, 0)) :
        LET w == IF what = "imp" THEN "imp" ELSE "con" IN
        /\ rb' = r /\ st' = [what |-> w, nu |-> nu, nf |-> nf, all |-> FALSE, it |-> <<>>] /\ ds' = <<>> /\ b' = 1 /\ cur' = 0
        /\ Log(r @@ [op |-> "new", what |-> w, nu |-> nu])
GAdd == \E id \in One(R(1..5, 0)), on \in One(R(1..3, 0) # 1), bad \in One(R(1..12, 0) = 1) : \E c \in One(Item(st.what, st.nf, IF bad THEN st.nu + 1 ELSE st.nu, 0)) :
        /\ Log(c @@ [op |-> "add", n |-> Nm[id], id |-> id, on |-> on])
        /\ st' = IF id \in Ids \/ (bad /\ st.what = "con") THEN st ELSE [st EXCEPT !.it = (id :> [on |-> on, k |-> c.k, b |-> b]) @@ st.it]
        /\ b' = b + 1 /\ cur' = 0 /\ UNCHANGED <<rb, ds>>
GRemove == \E id \in One(R(1..5, 0)) : /\ Log([op |-> "remove", n |-> Nm[id], id |-> id]) /\ st' = [st EXCEPT !.it = [i \in Ids \ {id} |-> st.it[i]]] /\ cur' = 0 /\ UNCHANGED <<rb, ds, b>>
GStatus == \E id \in One(R(IF Ids # {} /\ R(1..6, 0) > 1 THEN Ids ELSE 1..5, 0)), on \in One(R(BOOLEAN, 0)) :
           /\ Log([op |-> "status", n |-> Nm[id], id |-> id, on |-> on]) /\ st' = (IF id \in Ids THEN [st EXCEPT !.it = [i \in Ids |-> IF i = id THEN [st.it[i] EXCEPT !.on = on] ELSE st.it[i]]] ELSE st) /\ cur' = 0 /\ UNCHANGED <<rb, ds, b>>
GAll == \E on \in One(R(BOOLEAN, 0)) : Log([op |-> "all", on |-> on]) /\ st' = [st EXCEPT !.all = on] /\ cur' = 0 /\ UNCHANGED <<rb, ds, b>>
Bs == {st.it[i].b : i \in Ids}
GData == \E d \in One(R(1..2, 0)) : Log([op |-> "data", d |-> d]) /\ ds' = (d :> Bs) @@ ds /\ cur' = 0 /\ UNCHANGED <<rb, st, b>>
GCast == Log([op |-> "cast"]) /\ ds' = <<>> /\ cur' = 0 /\ UNCHANGED <<rb, st, b>>
\* slots that fit, or that have another number of items (rejected)
Fit == {d \in DOMAIN ds : ds[d] = Bs}
RECURSIVE Card(_)
Card(S) == IF S = {} THEN 0 ELSE 1 + Card(S \ {CHOOSE x \in S : TRUE})
Wrong == {d \in DOMAIN ds : Card(ds[d]) # Card(Bs)}
GEval == \E d \in One(R(Fit \cup Wrong, 0)) : Log([op |-> "eval", d |-> d, x |-> Point(rb.jk, 0), a |-> Vec(Nv, Sm), e |-> Disp(rb.jk, 0)]) /\ cur' = (IF d \in Fit THEN d ELSE 0) /\ UNCHANGED <<rb, st, ds, b>>
Mat(r, c) == TLCEval([i \in 1..r |-> Vec(c, Sm)])
GUse == \E k \in One(R({"force", "force2", "fdiff", "acc", "accd"}, 0)), z \in One(R(1..14, 0)) :
        /\ UNCHANGED <<rb, st, ds, b, cur>>
        /\ CASE k \in {"force", "force2"} -> Log([op |-> "force", d |-> cur, f |-> Vec(IF z = 1 THEN Rows + 1 ELSE IF z = 2 /\ Sum(Ids, TRUE) # Rows THEN Sum(Ids, TRUE) ELSE Rows, Sm), e |-> Disp(rb.jk, 0)])
             [] k = "fdiff" -> Log([op |-> "fdiff", d |-> cur, dx |-> Mat(IF z = 1 THEN Rows + 1 ELSE Rows, IF z = 2 THEN 2 * Nv + 1 ELSE 2 * Nv), du |-> Mat(IF z = 3 THEN Rows + 1 ELSE Rows, IF z = 4 THEN st.nu + 1 ELSE st.nu)])
             [] k = "acc" -> Log([op |-> "acc", d |-> cur, v |-> Vec(IF z = 1 THEN Nv + 1 ELSE Nv, Sm)])
             [] OTHER -> Log([op |-> "accd", d |-> cur, m |-> Mat(IF z = 1 THEN Nv + 1 ELSE Nv, IF z = 2 THEN Nv ELSE 2 * Nv)])
Kinds == IF rb = <<>> THEN {"new"} ELSE {"add", "add2", "remove", "status", "status2", "data"} \cup (IF R(1..12, 0) = 1 THEN {"new", "cast"} ELSE {}) \cup (IF st.what = "con" THEN {"all"} ELSE {})
          \cup (IF Fit \cup Wrong # {} THEN {"eval", "eval2", "eval3", "eval4"} ELSE {}) \cup (IF cur # 0 /\ Rows > 0 THEN {"use", "use2", "use3", "use4", "use5", "use6"} ELSE {})
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R(Kinds, 0)) :
            CASE k = "new" -> GNew [] k \in {"add", "add2"} -> GAdd [] k = "remove" -> GRemove [] k \in {"status", "status2"} -> GStatus [] k = "all" -> GAll
              [] k = "data" -> GData [] k = "cast" -> GCast [] k \in {"eval", "eval2", "eval3", "eval4"} -> GEval [] OTHER -> GUse
GSpec == hist = <<>> /\ rb = <<>> /\ st = <<>> /\ ds = <<>> /\ b = 0 /\ cur = 0 /\ [][GNext]_<<hist, rb, st, ds, b, cur>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
