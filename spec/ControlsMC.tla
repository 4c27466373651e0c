----------------------------- MODULE ControlsMC -----------------------------
(***************************************************************************)
(* The parametrization over all small instances: the weights sum to one,   *)
(* the derivative is the exact matrix, constant parameters reproduce their *)
(* control at every time, bounds on the parameters bound the control at    *)
(* the nodes, and assignment modes invert each other.                      *)
(***************************************************************************)
EXTENDS Controls
VARIABLES k, nw, t, u
Ts == {"0", "1/4", "1/3", "1/2", "2/3", "1"}
Vals == {"-1", "0", "2"}
MCInit == /\ k \in {"zero", "one", "two3", "two4"} /\ nw \in 1..2 /\ t \in Ts
          /\ u \in [1..NuOf(k, nw) -> {"-1", "2"}]
MCNext == FALSE /\ UNCHANGED <<k, nw, t, u>>
MCSpec == MCInit /\ [][MCNext]_<<k, nw, t, u>>
C == Weights(k, t)
W == ControlAt(k, nw, t, u)
UnitSum == REq(VSum(C), "1")
Exact == VEq(W, MV(Jac(C, nw), u))
Reproduces == \A a \in Vals : LET w == [i \in 1..nw |-> IF i = 1 THEN a ELSE "1/2"] IN VEq(ControlAt(k, nw, t, Params(k, w)), w)
AtNodes == \A i \in 1..Blocks(k) : REq(Nodes(k)[i], t) => VEq(W, Blk(u, i, nw))
Modes == LET A == <<[i \in 1..nw |-> "3"]>> P == MulJ(A, C, nw) O == <<[i \in 1..NuOf(k, nw) |-> u[i]]>>
         IN /\ MEq(P, MMul(A, Jac(C, nw))) /\ MEq(Assign("sub", Assign("add", O, P), P), O) /\ MEq(Assign("set", O, P), P)
            /\ MEq(MulJT(MT(A), C, nw), MMul(MT(Jac(C, nw)), MT(A)))
=============================================================================
