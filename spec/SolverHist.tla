----------------------------- MODULE SolverHist -----------------------------
(***************************************************************************)
(* Histories of one solver: what a solve may depend on.  The problem (its  *)
(* nodes' control dimensions and a version that every edit changes) and    *)
(* the settings are the only inputs besides the guess; everything else the *)
(* solver holds (previous trajectory, warm starts, regularization, flags,  *)
(* derivative data) is memory a solve has to overwrite before it reads it. *)
(* The memory is modelled by when it was last written: in which solve and  *)
(* for which version of the problem.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* is a guess well formed for nodes with these control dimensions?
WellFormed(xs, us, nx, nus) ==
  /\ Len(xs) = 0 \/ (Len(xs) = Len(nus) + 1 /\ \A t \in 1..Len(xs) : Len(xs[t]) = nx)
  /\ Len(us) = 0 \/ (Len(us) = Len(nus) /\ \A t \in 1..Len(us) : Len(us[t]) = nus[t])
\* memory of the solver and the order in which the steps of a solve read and write it
Cells == {"size", "traj", "flags", "reg", "deriv", "policy", "trial", "improvement"}
Writes == [Resize |-> {"size"}, Start |-> {"traj", "flags", "reg"}, Derive |-> {"deriv"}, Backward |-> {"policy"}, Try |-> {"trial", "improvement"}, Take |-> {"traj", "flags"}, Stop |-> {}]
Reads == [Resize |-> {}, Start |-> {"size"}, Derive |-> {"size", "traj"}, Backward |-> {"deriv", "flags", "reg", "size"}, Try |-> {"policy", "traj", "flags", "deriv"}, Take |-> {"trial", "improvement"}, Stop |-> {"improvement", "flags"}]
=============================================================================
