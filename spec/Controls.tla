------------------------------ MODULE Controls ------------------------------
(***************************************************************************)
(* Control parametrizations.  A parametrization produces the control w at  *)
(* the normalized time t as a combination of blocks of the parameters u,   *)
(* with the Lagrange polynomials of its nodes as weights: one node (the    *)
(* control is constant), the nodes 0 and 1/2 (linear), or the stages of    *)
(* a third (0, 1/3, 2/3) or fourth (0, 1/2, 1) order scheme (quadratic).   *)
(* A data object remembers the weights of its last evaluation; products    *)
(* with the derivative use them.                                           *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, TLC
Nodes(k) == CASE k = "zero" -> <<"0">> [] k = "one" -> <<"0", "1/2">> [] k = "two3" -> <<"0", "1/3", "2/3">> [] k = "two4" -> <<"0", "1/2", "1">>
Blocks(k) == Len(Nodes(k))
NuOf(k, nw) == Blocks(k) * nw
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN "1" ELSE RMul(s[1], RProd(Tail(s)))
\* the weight of node i at time t
Weight(k, i, t) == LET N == Nodes(k) IN RProd([j \in 1..Len(N) |-> IF j = i THEN "1" ELSE RDiv(RSub(t, N[j]), RSub(N[i], N[j]))])
Weights(k, t) == [i \in 1..Blocks(k) |-> Weight(k, i, t)]
Blk(u, i, nw) == SubSeq(u, (i - 1) * nw + 1, i * nw)
RECURSIVE Comb(_, _, _, _)
Comb(c, u, nw, i) == IF i = 0 THEN VZero(nw) ELSE VAdd(Comb(c, u, nw, i - 1), VScale(c[i], Blk(u, i, nw)))
ControlAt(k, nw, t, u) == Comb(Weights(k, t), u, nw, Blocks(k))
\* dw/du
Jac(c, nw) == [r \in 1..nw |-> [j \in 1..Len(c) * nw |-> IF ((j - 1) % nw) + 1 = r THEN c[(j - 1) \div nw + 1] ELSE "0"]]
\* the parameters of a control held over the whole interval, and bounds holding at every time of the nodes
RECURSIVE Rep(_, _)
Rep(w, n) == IF n = 0 THEN <<>> ELSE w \o Rep(w, n - 1)
Params(k, w) == Rep(w, Blocks(k))
Assign(mode, out, prod) == CASE mode = "set" -> prod [] mode = "add" -> MAdd(out, prod) [] mode = "sub" -> MSub(out, prod)
\* products that keep their sizes when a matrix has no rows or columns
MulJ(A, c, nw) == [r \in 1..Len(A) |-> MTV(Jac(c, nw), A[r], Len(c) * nw)]
MulJT(A, c, nw) == LET J == Jac(c, nw) IN
                   [i \in 1..Len(c) * nw |-> LET n == ((i - 1) % nw) + 1 IN VScale(c[(i - 1) \div nw + 1], A[n])]
=============================================================================
