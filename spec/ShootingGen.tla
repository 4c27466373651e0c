---------------------------- MODULE ShootingGen -----------------------------
(* Histories of operations, accepted and rejected ones; used to check the   *)
(* invariants exhaustively and to generate histories for the real code.     *)
EXTENDS Shooting, TLC, Json, Randomization

CONSTANTS MaxOps,      \* operations in a history
          MaxT,        \* longest horizon
          Eval,        \* TRUE: histories with evaluations
          Emit         \* TRUE: print complete histories
VARIABLES hist
gvars == <<probs, owner, hist>>

\* every choice when model checking, one at random when generating
Pick(S) == IF Emit /\ S # {} THEN {RandomElement(S)} ELSE S
Horizons == 1..MaxT
Ids == IF Eval THEN 1..4 ELSE Models
Loose == 1..3
NextId == 1001 + Cardinality({d \in Known : d > 1000})
Log(op) == hist' = Append(hist, op)
Reject(op) == Log(op) /\ UNCHANGED vars
Live == {s \in Slots : IsProblem(probs[s])}
X0s == {<<1, 2>>, <<3, 0>>, <<1>>, <<1, 2, 3>>}
Seqs(n) == [1..n -> Ids]
\* few model lists: uniform, one odd at each place, and alternating
Lists == UNION {{[i \in 1..n |-> IF i = k THEN b ELSE a] : a \in Ids, b \in Ids, k \in 1..n} : n \in Horizons}
Often(good, all) == IF ~Emit THEN all ELSE IF RandomElement(1..6) = 1 THEN {RandomElement(all)} ELSE {RandomElement(good)}
PickId(h) == Often(1..4, Ids)
PickX0(h) == Often({x \in X0s : Len(x) = 2}, X0s)
GoodLists == {x \in Lists : \A i \in 1..Len(x) : x[i] <= 4}
PickList(h) == Often(GoodLists, Lists)
Off(h) == Often({0}, {-1, 0, 1})
FreshIds(n) == [i \in 1..n |-> NextId + i - 1]

GInit == Init /\ hist = <<>>

GNewData == \E m \in PickId(hist), d \in Pick(Loose \ Known) :
   /\ NewData(m, d) /\ Log([op |-> "data", d |-> d, m |-> m])
GCreate == \E s \in Pick(Slots), tm \in PickId(hist), ms \in PickList(hist), x0 \in PickX0(hist) :
   LET n == Len(ms)  ds == FreshIds(n)  op == [op |-> "create", p |-> s, ms |-> ms, tm |-> tm, x0 |-> x0] IN
   IF CreateOk(ms, tm, x0) THEN Create(s, ms, tm, x0, ds, NextId + n) /\ Log(op) ELSE Reject(op)
\* a model that can use data d, mostly
PickFor(d, h) == Often({m \in Ids : Kind(m) = Kind(owner[d])}, Ids)
GCreateWith == \E s \in Pick(Slots), x0 \in PickX0(hist), td \in Pick(Known \cap Loose), n \in Pick(Horizons), dn \in Often({0}, {0, 1}) :
   \E tm \in PickFor(td, hist), ds0 \in Pick([1..n -> Known \cap Loose]), odd \in Pick(1..n) :
   \E mo \in PickFor(ds0[odd], hist) :
   LET ms == [i \in 1..n |-> IF i = odd THEN mo ELSE owner[ds0[i]]]
       ds == SubSeq(ds0, 1, n - dn) IN
   LET op == [op |-> "createWith", p |-> s, ms |-> ms, tm |-> tm, x0 |-> x0, ds |-> ds, td |-> td] IN
   /\ IF CreateWithOk(ms, tm, x0, ds, td) THEN CreateWith(s, ms, tm, x0, ds, td) /\ Log(op) ELSE Reject(op)
GAppend == \E s \in Pick(Live), m \in PickId(hist) :
   LET op == [op |-> "append", p |-> s, m |-> m] IN
   IF ModelOk(s, m) THEN AppendModel(s, m, NextId) /\ Log(op) ELSE Reject(op)
GAppendData == \E s \in Pick(Live), d \in Pick(Known \cap Loose) : \E m \in PickFor(d, hist) :
   LET op == [op |-> "appendData", p |-> s, m |-> m, d |-> d] IN
   IF AppendDataOk(s, m, d) THEN AppendData(s, m, d) /\ Log(op) ELSE Reject(op)
GUpdateModel == \E s \in Pick(Live) : \E i \in Pick(0..(probs[s].T + 1)), m \in PickId(hist) :
   LET op == [op |-> "updateModel", p |-> s, i |-> i, m |-> m] IN
   IF UpdateModelOk(s, i, m) THEN UpdateModel(s, i, m, NextId) /\ Log(op) ELSE Reject(op)
GUpdateNode == \E s \in Pick(Live), d \in Pick(Known \cap Loose) : \E i \in Pick(0..(probs[s].T + 1)), m \in PickFor(d, hist) :
   LET op == [op |-> "updateNode", p |-> s, i |-> i, m |-> m, d |-> d] IN
   IF UpdateNodeOk(s, i, m, d) THEN UpdateNode(s, i, m, d) /\ Log(op) ELSE Reject(op)
GSetRunning == \E s \in Pick(Live), ms \in PickList(hist) :
   LET op == [op |-> "setRunning", p |-> s, ms |-> ms] IN
   IF SetRunningOk(s, ms) THEN SetRunning(s, ms, FreshIds(Len(ms))) /\ Log(op) ELSE Reject(op)
GSetTerminal == \E s \in Pick(Live), m \in PickId(hist) :
   LET op == [op |-> "setTerminal", p |-> s, m |-> m] IN
   IF ModelOk(s, m) THEN SetTerminal(s, m, NextId) /\ Log(op) ELSE Reject(op)
GSetX0 == \E s \in Pick(Live), x0 \in PickX0(hist) :
   LET op == [op |-> "setX0", p |-> s, x0 |-> x0] IN
   IF SetX0Ok(s, x0) THEN SetX0(s, x0) /\ Log(op) ELSE Reject(op)
GIsUpdated == \E s \in Pick(Live) : IsUpdated(s, probs[s].upd) /\ Log([op |-> "isUpdated", p |-> s])
GCopy == \E s \in Pick(Live), w \in Pick(1..2) : LET t == (((s + w) - 1) % Cardinality(Slots)) + 1 IN s # t /\ Copy(s, t) /\ Log([op |-> "copy", p |-> s, q |-> t])

\* evaluations: lengths right or off by one, small integers
Vec(n, k) == [j \in 1..n |-> ((k * j + j) % 5) - 1]
GEval == \E s \in Pick(Live), k \in Pick(0..3), dx \in Off(hist), du \in Off(hist), what \in Pick({"calc", "diff", "rollout", "rolloutUs", "quasi", "quasiXs"}) :
   LET q == probs[s]
       nus(i) == IF i <= q.T THEN Table[q.rm[i]].nu ELSE 1
       nxs == (IF what \in {"quasi", "quasiXs"} THEN q.T ELSE q.T + 1) + dx
       nun == q.T + (IF dx = 0 THEN du ELSE 0)
       xs == [i \in 1..nxs |-> Vec(2, k + i)]
       us == [i \in 1..nun |-> Vec(nus(i), 3 * k + i)]
       op == CASE what \in {"calc", "diff"} -> [op |-> what, p |-> s, xs |-> xs, us |-> us]
               [] what \in {"rollout", "rolloutUs"} -> [op |-> what, p |-> s, us |-> us, n |-> nxs]
               [] OTHER -> [op |-> what, p |-> s, xs |-> xs, n |-> nun]
   IN Reject(op)
GThreads == \E s \in Pick(Live), n \in Pick(0..8) : Reject([op |-> "threads", p |-> s, n |-> n])

Edits == \/ GAppend \/ GUpdateModel \/ GSetRunning \/ GSetTerminal \/ GSetX0 \/ GCopy
GNext == /\ Len(hist) < MaxOps
         /\ \/ GNewData \/ GCreate \/ Edits \/ GIsUpdated
            \/ GAppendData \/ GUpdateNode \/ GCreateWith
            \/ Eval /\ (GEval \/ GThreads)
GSpec == GInit /\ [][GNext]_gvars

\* A history chosen at random: the kind of operation first, so that all of them are frequent
Kinds == (IF Live = {} THEN {"create"} ELSE {"create", "edit1", "edit2", "edit3", "edit4", "edit5", "copy", "upd"}
              \cup (IF Eval THEN {"eval1", "eval2", "eval3", "eval4", "threads"} ELSE {}))
         \cup (IF Loose \subseteq Known THEN {} ELSE {"data"})
         \cup (IF Eval \/ Loose \cap Known = {} THEN {} ELSE {"createWith"} \cup (IF Live = {} THEN {} ELSE {"appendData", "updateNode"}))
Do(k) == CASE k = "create" -> GCreate
           [] k = "data" -> GNewData
           [] k = "createWith" -> GCreateWith
           [] k = "edit1" -> GAppend
           [] k = "edit2" -> GUpdateModel
           [] k = "edit3" -> GSetRunning
           [] k = "edit4" -> GSetTerminal
           [] k = "edit5" -> GSetX0
           [] k = "copy" -> GCopy
           [] k = "upd" -> GIsUpdated
           [] k = "appendData" -> GAppendData
           [] k = "updateNode" -> GUpdateNode
           [] k = "threads" -> GThreads
           [] OTHER -> GEval
RNext == /\ Len(hist) < MaxOps
         /\ LET k == RandomElement(Kinds) IN Do(k)
RSpec == GInit /\ [][RNext]_gvars

Done == Emit /\ Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)

\* model checking starts from two problems and two loose data objects
MCInit == /\ hist = <<>>
          /\ owner = (1 :> 1 @@ 2 :> 3 @@ 1001 :> 1 @@ 1002 :> 3 @@ 1003 :> 2)
          /\ probs = [s \in Slots |-> IF s > 1 THEN None ELSE
                [T |-> 2, x0 |-> <<1, 2>>, rm |-> <<1, 3>>, rd |-> <<1001, 1002>>, tm |-> 2, td |-> 1003, nx |-> 2, ndx |-> 2, upd |-> FALSE]]
MCNext == /\ Len(hist) < MaxOps
          /\ Edits \/ GIsUpdated \/ GAppendData \/ GUpdateNode
MCSpec == MCInit /\ [][MCNext]_gvars
View == <<probs, owner, Len(hist)>>
=============================================================================
