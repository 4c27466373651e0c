------------------------------- MODULE GaitMC -------------------------------
(* A robot that walks: every walk starts where the one before ended. *)
EXTENDS Gait, TLC
CONSTANTS MaxN, MaxNs, MaxWalks
VARIABLES feet, at0, first, was, nodes, p, done
vars == <<feet, at0, first, was, nodes, p, done>>
Cz == "1/2"
Start == {<<<<"1", "1/2", "0">>, <<"1", "-1/2", "0">>, <<"-1", "1/2", "0">>, <<"-1", "-1/2", "0">>>>,
          <<<<"3/4", "1/2", "1/8">>, <<"1", "-1/4", "0">>, <<"-1", "1/2", "-1/8">>, <<"-3/4", "-1/2", "1/4">>>>}
MCInit == feet \in Start /\ at0 = feet /\ first = TRUE /\ was = feet /\ nodes = <<>> /\ p = [len |-> "0", h |-> "0", n |-> 0, ns |-> 0, first |-> TRUE] /\ done = 0
MCNext == /\ done < MaxWalks
          /\ \E n \in 0..MaxN, ns \in 0..MaxNs, h \in {"0", "1/8"}, len \in IF done = 0 THEN {"1", "1/4"} ELSE {p.len} :
             /\ nodes' = Walk(first, feet, Cz, len, h, "1/100", n, ns)
             /\ p' = [len |-> len, h |-> h, n |-> n, ns |-> ns, first |-> first]
             /\ feet' = [f \in 1..4 |-> VAdd(feet[f], <<Length(f, first, len), "0", "0">>)]
             /\ was' = feet /\ first' = FALSE /\ done' = done + 1 /\ UNCHANGED at0
MCSpec == MCInit /\ [][MCNext]_vars
Dom == 1..Len(nodes)
Set(s) == {s[i] : i \in 1..Len(s)}
Timed == done > 0 => Len(nodes) = 2 * p.ns + 4 * (p.n + 1) /\ Cardinality({k \in Dom : nodes[k].t = "touch"}) = 4
\* a foot either stands or swings, and at least three stand
Feet == \A k \in Dom : Set(nodes[k].on) \cap Set(nodes[k].sw) = {} /\ Cardinality(Set(nodes[k].on)) >= 3
                       /\ (nodes[k].t = "swing" => Set(nodes[k].on) \cup Set(nodes[k].sw) = 1..4)
\* feet swing one after the other, each once and without a pause, and each ends on the impulse
Turn(f) == {k \in Dom : f \in Set(nodes[k].sw)}
Once == (done > 0 /\ p.n > 0) => \A f \in 1..4 : Cardinality(Turn(f)) = p.n + 1 /\ \A k \in Turn(f) : k + 1 \in Turn(f) \/ nodes[k].t = "touch"
\* a step goes from behind to the length ahead, straight, never back, and ends on the ground if its knots have a middle
Refs(f) == {<<k, nodes[k].ref[1]>> : k \in {j \in Turn(f) : nodes[j].t = "swing"}}
Last(f) == CHOOSE r \in Refs(f) : \A q \in Refs(f) : q[1] <= r[1]
Lands == (done > 0 /\ p.n > 0) =>
   \A f \in 1..4 : /\ \A r \in Refs(f) : r[2][2] = was[f][2] /\ RLe(was[f][3], r[2][3]) /\ RLe(r[2][3], RAdd(was[f][3], p.h))
                   /\ Last(f)[2][1] = feet[f][1]
                   /\ (p.n % 2 = 1 /\ p.n > 1 => Last(f)[2][3] = was[f][3])
                   /\ \E r \in Refs(f) : r[2][3] = RAdd(was[f][3], p.h)
                   /\ \A r \in Refs(f), q \in Refs(f) : r[1] < q[1] => RLt(r[2][1], q[2][1])
\* the center of mass keeps its height and goes ahead with the feet: it ends over the middle of where they are
Mass == (done > 0 /\ p.n > 0) => \A k \in Dom : nodes[k].com # <<>> => nodes[k].com[3] = Cz /\ nodes[k].com[2] = Mean(was)[2]
Ahead == \A k \in Dom, j \in Dom : (k < j /\ nodes[k].com # <<>> /\ nodes[j].com # <<>>) => RLt(nodes[k].com[1], nodes[j].com[1])
Coms == {k \in Dom : nodes[k].com # <<>>}
Over == (done > 0 /\ p.n > 0) => LET k == CHOOSE k \in Coms : \A j \in Coms : j <= k IN nodes[k].com[1] = Mean(feet)[1]
\* walking on, a pair of feet takes turns in being half a step ahead of the other
Even == done > 0 => \A f \in {1, 3} : RSub(feet[f][1], feet[f + 1][1]) = RAdd(RMul("1/2", p.len), RSub(at0[f][1], at0[f + 1][1]))
\* only the impulses last no time
Touch == \A k \in Dom : (nodes[k].t = "touch") = (nodes[k].dt = "0")
Named == done > 0 => \A k \in Dom : LET C == CostsOf(nodes[k], Fill(8, "0"), 7, LAMBDA f : ToString(f)) IN \A a \in C, b \in C : a.n = b.n => a = b
=============================================================================
