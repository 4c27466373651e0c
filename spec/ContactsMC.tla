------------------------------ MODULE ContactsMC ------------------------------
(* Histories of a small stack with counters kept as a designer would keep them; and, for each kind of contact, the force
   on the body does the work of the contact force along the prescribed components (one is the transpose of the other). *)
EXTENDS Contacts
CONSTANTS Depth
VARIABLES s, nc, tot, n, kind
Kinds == {"1d", "2d", "3d", "6d"}
Dummy(k) == [k |-> k]
MCInit == s = <<>> /\ nc = 0 /\ tot = 0 /\ n = 0 /\ kind \in {<<k, t>> : k \in Kinds, t \in {"L", "W"}}
D(k) == NcOf([k |-> k])
Next ==
  /\ n < Depth /\ n' = n + 1 /\ UNCHANGED kind
  /\ \E id \in 1..3 :
     \/ \E k \in {"1d", "3d"}, on \in BOOLEAN :
        /\ s' = Add(s, [id |-> id, c |-> Dummy(k), on |-> on, b |-> n])
        /\ IF Has(s, id) THEN UNCHANGED <<nc, tot>> ELSE tot' = tot + D(k) /\ nc' = (IF on THEN nc + D(k) ELSE nc)
     \/ /\ s' = Remove(s, id)
        /\ IF ~Has(s, id) THEN UNCHANGED <<nc, tot>>
           ELSE \E i \in 1..Len(s) : s[i].id = id /\ tot' = tot - NcOf(s[i].c) /\ nc' = (IF s[i].on THEN nc - NcOf(s[i].c) ELSE nc)
     \/ \E on \in BOOLEAN :
        /\ s' = Turn(s, id, on) /\ UNCHANGED tot
        /\ IF ~Has(s, id) THEN UNCHANGED nc
           ELSE \E i \in 1..Len(s) : s[i].id = id /\ nc' = (IF on /\ ~s[i].on THEN nc + NcOf(s[i].c) ELSE IF ~on /\ s[i].on THEN nc - NcOf(s[i].c) ELSE nc)
MCSpec == MCInit /\ [][Next]_<<s, nc, tot, n, kind>>
Counters == nc = Rows(s, FALSE) /\ tot = Rows(s, TRUE) /\ nc <= tot
Sorted == \A i, j \in 1..Len(s) : i < j => s[i].id < s[j].id
Blocks == \A a \in BOOLEAN : \A i \in 1..Len(s) : First(s, a, i) + (IF a \/ s[i].on THEN NcOf(s[i].c) ELSE 0) <= Rows(s, a) + 1
\* work: a body moving with twist w (about its own origin), a frame fixed to it
Q == <<"3/5", "0", "4/5", "0", "1", "0", "-4/5", "0", "3/5">>
P == <<"0", "-1", "0", "1", "0", "0", "0", "0", "1">>
Fr == [R |-> P, p |-> VZero(3), J |-> <<>>, v |-> VZero(6), a |-> VZero(6)]
Con == [k |-> kind[1], ty |-> kind[2], Ra |-> Q, pr |-> VZero(3), g |-> <<"0", "0">>]
\* the frame's twist from that of its body
InFrame(jR, jt, w) == Rot6(MT(M3(jR)), VSub(Lin(w), Cross(jt, Ang(w))) \o Ang(w))
Work == n > 0 \/ \A w \in {<<"1", "2", "-1", "0", "1/2", "3">>, <<"0", "0", "1", "1", "-1", "2">>} : \A f \in {<<"1", "2", "3", "-1", "0", "1/2">>, <<"-2", "1", "1", "1", "1", "-3">>} :
        LET F == [Fr EXCEPT !.R = P] t == <<"1/2", "-1", "2">> fc == SubSeq(f, 1, NcOf(Con)) IN
        REq(VDot(fc, Pick(Con, Coord(Con, F, InFrame(Q, t, w)))), VDot(OnBody(Con, F, Q, t, fc), w))
=============================================================================
