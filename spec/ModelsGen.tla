----------------------------- MODULE ModelsGen ------------------------------
(* Histories of constructions, copies, parameter changes and evaluations.  *)
EXTENDS ModelData, ModelFormulas, Json
CONSTANTS MaxOps, Slots, DSlots
VARIABLE hist
R(S, x) == RandomElement(S)
Nums == {"-2", "-1", "0", "1", "2", "1/2", "-1/4", "3"}
Vec(n, x) == TLCEval([i \in 1..n |-> RandomElement(Nums)])
Mat(m, n, x) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RandomElement(Nums)])])
IMat(m, n, x) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> RandomElement({"-1", "0", "1", "2", "1/2"})])])
\* parameters of a model: a positive semidefinite cost of full or lower rank
Par(k, nx, nu, ng, nh, x) ==
  LET n == nx + nu rk == R({n, n, n, 1}, x)
      M == IMat(rk, n, x) L == TLCEval(MMul(MT(M), M))
      n0 == IF k = "lqr" THEN nx ELSE nx \div 2
      core == [B |-> Mat(n0, nu, x), Q |-> [i \in 1..nx |-> SubSeq(L[i], 1, nx)], R |-> [i \in 1..nu |-> SubSeq(L[nx + i], nx + 1, n)],
               N |-> [i \in 1..nx |-> SubSeq(L[i], nx + 1, n)], G |-> Mat(ng, n, x), H |-> Mat(nh, n, x), f |-> Vec(n0, x), q |-> Vec(nx, x), r |-> Vec(nu, x), g |-> Vec(ng, x), h |-> Vec(nh, x)]
  IN TLCEval(IF k = "lqr" THEN [A |-> Mat(nx, nx, x)] @@ core ELSE [Aq |-> Mat(n0, n0, x), Av |-> Mat(n0, n0, x)] @@ core)
\* a parameter record made inadmissible in one place
Vecs == {"f", "q", "r", "g", "h"}
SpoilAt(P, s) ==
  LET c == s.c how == s.how
  IN IF c = "indef" \/ (c = "indef2" /\ Len(P.R) = 0) THEN [P EXCEPT !.Q[1][1] = "-1"]
     ELSE IF c = "indef2" THEN LET v == RAdd(RAdd("1", P.Q[1][1]), P.R[1][1]) IN [P EXCEPT !.N[1][1] = v]
     ELSE IF c \in Vecs THEN [P EXCEPT ![c] = IF how = "less" /\ Len(@) > 0 THEN Tail(@) ELSE Append(@, "1")]
     ELSE LET M == P[c]
          IN IF Len(M) = 0 THEN (IF c \in {"G", "H"} THEN [P EXCEPT ![c] = <<VZero(Len(P.Q) + Len(P.R))>>] ELSE [P EXCEPT ![c] = <<<<"1">>>>])
             ELSE IF how = "col" THEN [P EXCEPT ![c] = [i \in 1..Len(M) |-> Append(M[i], "1")]]
             ELSE IF how = "less" /\ Len(M[1]) > 1 THEN [P EXCEPT ![c] = [i \in 1..Len(M) |-> Tail(M[i])]]
             ELSE [P EXCEPT ![c] = Append(M, M[1])]
Spoil(P, x) == SpoilAt(P, TLCEval([c |-> R(DOMAIN P \cup {"indef", "indef2"}, x), how |-> R({"row", "col", "less"}, x)]))
Log(op) == hist' = Append(hist, op)
Dim(k, nx, nu, ng, nh) == [k |-> k, nx |-> nx, nu |-> nu, ng |-> ng, nh |-> nh]
One(v) == {TLCEval(v)}
GNew(x) ==
  \E a \in One([m |-> R(Slots, x), k |-> R({"lqr", "lqr2", "lqr3", "dlqr", "dlqr2", "uni"}, x), n |-> R(1..4, x), nu |-> R(0..3, x), bad |-> R(1..6, x) = 1,
                via |-> R({"full", "full2", "full3", "mid", "short", "dims", "rand"}, x), ng |-> R(0..2, x), nh |-> R(0..2, x), free |-> R(BOOLEAN, x)]) :
  \E k \in One(IF a.k \in {"lqr", "lqr2", "lqr3"} THEN "lqr" ELSE IF a.k = "uni" THEN "uni" ELSE "dlqr"),
     via \in One(IF a.k = "uni" THEN "uni" ELSE IF a.via \in {"full2", "full3"} THEN "full" ELSE a.via) :
  \E n \in One(IF k = "lqr" THEN a.n ELSE 1 + (a.n % 2)), nu \in One(IF k = "uni" THEN 2 ELSE a.nu), c \in One(via \in {"full", "rand"}) :
  \E nx \in One(IF k = "uni" THEN 3 ELSE IF k = "lqr" THEN n ELSE 2 * n), ng \in One(IF c THEN a.ng ELSE 0), nh \in One(IF c THEN a.nh ELSE 0), given \in One(via \in {"full", "mid", "short"}) :
  \E P0 \in One(IF given THEN Par(k, nx, nu, ng, nh, x) ELSE <<>>) : \E P1 \in One(IF given /\ a.bad THEN Spoil(P0, x) ELSE P0) :
  \E args \in One(IF given THEN [z \in DOMAIN P1 \ (IF via = "full" THEN {} ELSE IF via = "mid" THEN {"G", "H", "g", "h"} ELSE {"G", "H", "g", "h", "f", "q", "r"}) |-> P1[z]]
                   ELSE IF via = "dims" THEN [n |-> n, nu |-> nu, free |-> a.free] ELSE IF via = "rand" THEN [n |-> n, nu |-> nu, ng |-> ng, nh |-> nh] ELSE [z \in {} |-> 0]) :
  \E ok \in One(IF given THEN LET F == Filled(k, args) IN Consistent(k, F, Nx(k, F), Nu(k, F), Ng(k, F), Nh(k, F)) ELSE TRUE) :
     /\ Log([op |-> "new", m |-> a.m, k |-> k, via |-> via] @@ args)
     /\ IF ok THEN New(a.m, Dim(k, nx, nu, ng, nh)) ELSE UNCHANGED vars
Mods == DOMAIN models
GCopy(x) == \E m \in One(R(Mods, x)) : \E n \in One(R(Slots \ {m}, x)) : Log([op |-> "copy", m |-> m, n |-> n]) /\ New(n, models[m])
GCast(x) == \E m \in One(R(Mods, x)) : Log([op |-> "cast", m |-> m, x |-> Vec(models[m].nx, x), u |-> Vec(models[m].nu, x)]) /\ UNCHANGED vars
GSet(x) ==
  \E m \in One(R(Mods, x)), bad \in One(R(1..3, x) = 1), c \in One(R(BOOLEAN, x)) : \E d \in One(models[m]) :
     /\ UNCHANGED vars
     /\ IF d.k = "uni" THEN IF c THEN Log([op |-> "dt", m |-> m, dt |-> R({"1/2", "1", "1/8", "0", "-1"}, x)]) ELSE Log([op |-> "weights", m |-> m, w |-> Vec(2, x)])
        ELSE \E P0 \in One(Par(d.k, d.nx, d.nu, d.ng, d.nh, x)) : Log([op |-> "set", m |-> m] @@ TLCEval(IF bad THEN Spoil(P0, x) ELSE P0))
GLimit(x) ==
  \E m \in One(R(Mods, x)), w \in One(R({"ulb", "uub", "glb", "gub", "xlb", "xub"}, x)), big \in One(R(1..4, x)), none \in One(R(1..3, x) = 1) : \E d \in One(models[m]) :
    LET n == IF w \in {"ulb", "uub"} THEN d.nu ELSE IF w \in {"glb", "gub"} THEN d.ng ELSE d.nx
        n1 == IF big = 1 THEN n + 1 ELSE IF big = 2 /\ n > 0 /\ none THEN n - 1 ELSE n
        Inf == IF w \in {"ulb", "glb", "xlb"} THEN "-inf" ELSE "inf"
    IN Log([op |-> "limit", m |-> m, w |-> w, v |-> TLCEval([i \in 1..n1 |-> IF none THEN Inf ELSE RandomElement({"-2", "1", "1/2", "3", Inf})])]) /\ UNCHANGED vars
GData(x) == \E m \in One(R(Mods, x)), d \in One(R(DSlots, x)) : Log([op |-> "data", m |-> m, d |-> d]) /\ Create(d, m)
GEval(x) ==
  \E d \in One(R(DOMAIN datas, x)), bad \in One(R(1..12, x)), t \in One(R(BOOLEAN, x)), df \in One(R(1..3, x) # 1) : \E k \in One(models[datas[d]]) :
    Log([op |-> "eval", d |-> d, t |-> t, diff |-> df, x |-> Vec(IF bad = 1 THEN k.nx + 1 ELSE IF bad = 2 THEN k.nx - 1 ELSE k.nx, x),
          u |-> Vec(IF bad = 3 THEN k.nu + 1 ELSE IF bad = 4 /\ k.nu > 0 THEN k.nu - 1 ELSE k.nu, x)]) /\ Eval(d, 0)
GInit == Init /\ hist = <<[op |-> "reset"]>>
Kinds == IF Mods = {} THEN {"new"} ELSE IF DOMAIN datas = {} THEN {"new", "data", "data2", "data3", "limit", "copy"}
         ELSE {"new", "copy", "set", "set2", "set3", "limit", "cast", "data", "data2", "eval", "eval2", "eval3", "eval4", "eval5", "eval6"}
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in {RandomElement(Kinds)} :
            CASE k = "new" -> GNew(0) [] k = "copy" -> GCopy(0) [] k \in {"set", "set2", "set3"} -> GSet(0) [] k = "limit" -> GLimit(0) [] k = "cast" -> GCast(0)
              [] k \in {"data", "data2", "data3"} -> GData(0) [] OTHER -> GEval(0)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
