------------------------------- MODULE RestMC -------------------------------
(***************************************************************************)
(* All small systems: the inverse has the four properties of Penrose; on a *)
(* system that is linear in the control the first correction already gives *)
(* a control that holds the state as well as any of its neighbours, none   *)
(* as good is closer to the start, and further iterations change nothing.  *)
(***************************************************************************)
EXTENDS Rest
VARIABLES A, c, u, k
Ent == {"-1", "0", "1"}
CONSTANT Sizes
MCInit == /\ \E s \in Sizes : A \in [1..(s \div 10) -> [1..(s % 10) -> Ent]]
          /\ c \in [1..Len(A) -> {"0", "1"}] /\ u \in [1..Len(A[1]) -> {"0", "2"}] /\ k = 0
M == [k |-> "pd", ac |-> c, aL |-> [i \in 1..Len(A) |-> <<"3">> \o A[i]], ak |-> <<>>, ai |-> <<>>]
X == <<"0">>
It(n) == Newton(M, X, u, n, "1/1000000000", 1)
MCNext == k < 3 /\ k' = k + 1 /\ UNCHANGED <<A, c, u>>
MCSpec == MCInit /\ [][MCNext]_<<A, c, u, k>>
P == PInv(A)
Penrose == k > 0 \/ (/\ MEq(MMul(MMul(A, P), A), A) /\ MEq(MMul(MMul(P, A), P), P)
                     /\ MEq(MT(MMul(A, P)), MMul(A, P)) /\ MEq(MT(MMul(P, A)), MMul(P, A)))
Best == k = 0 \/ LET v == It(k).u IN
        \A d \in [1..Len(u) -> {"-1/2", "0", "1/3"}] :
          LET w == VAdd(v, d) rv == Norm2(Motion(M, X, v)) rw == Norm2(Motion(M, X, w)) IN
          /\ RLe(rv, rw)
          /\ (REq(rv, rw) => RLe(Norm2(VSub(v, u)), Norm2(VSub(w, u))))
Settled == k < 2 \/ VEq(It(k).u, It(1).u)
Start == k > 0 \/ It(0).u = u
Sane == It(k).ok
=============================================================================
