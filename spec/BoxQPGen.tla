------------------------------ MODULE BoxQPGen ------------------------------
(* Sequences of problems for one QP object: resized, reconfigured, called with arguments of the wrong size. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLES n, hist
R(S, x) == RandomElement(S)
Vec(S, m, x) == TLCEval([i \in 1..m |-> RandomElement(S)])
Mat(S, r, c, x) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(S)])])
RECURSIVE Dot(_, _, _, _)
Dot(A, i, j, k) == IF k = 0 THEN 0 ELSE A[k][i] * A[k][j] + Dot(A, i, j, k - 1)
Gram(A, m, d) == [i \in 1..m |-> [j \in 1..m |-> Dot(A, i, j, m) + (IF i = j THEN d ELSE 0)]]
Entries(x) == R({-1..1, -30..30, -300..300, -3..3, -3..3, {-20, -3, 0, 1, 10}, {0, 0, 0, 1}}, x)
Solve(m, x) ==
  LET A == Mat(Entries(x), m, m, x) lo == Vec(-3..1, m, x) w == Vec(0..3, m, x)
      kind == R({"in", "in", "free", "mixed", "mixed"}, x)
      inf == TLCEval([i \in 1..m |-> IF kind = "in" THEN 0 ELSE IF kind = "free" THEN 3 ELSE R(0..3, x)])     \* which of the bounds are infinite
  IN [op |-> "solve", H |-> Gram(A, m, 1), q |-> Vec(-9..9, m, x),
      lo |-> [i \in 1..m |-> IF inf[i] % 2 = 1 THEN "-inf" ELSE ToString(lo[i])], hi |-> [i \in 1..m |-> IF inf[i] >= 2 THEN "inf" ELSE ToString(lo[i] + w[i])],
      x |-> Vec(-4..4, m, x), bad |-> R({"none", "none", "none", "none", "none", "none", "none", "H", "q", "lo", "hi", "x"}, x)]
New(x) == [op |-> "new", n |-> R(1..5, x), maxiter |-> 100, thA |-> R({"1/10", "1/10", "1/4"}, x), th |-> R({"1/1000000000", "1/1000000000", "1/100000"}, x), reg |-> R({"0", "0", "1/1000000000", "1/8", "2"}, x)]
Init == n = 0 /\ hist = <<>>
Create == hist = <<>> /\ \E o \in {New(hist)} : hist' = <<o>> /\ n' = o.n
Do == hist # <<>> /\ Len(hist) < N /\ \E c \in {R(0..9, hist)} :
      IF c = 0 THEN \E m \in {R(1..5, hist)} : hist' = Append(hist, [op |-> "resize", n |-> m]) /\ n' = m
      ELSE IF c = 1 THEN \E r \in {R({"0", "1/16", "1"}, hist)} : hist' = Append(hist, [op |-> "reg", reg |-> r]) /\ n' = n
      ELSE \E o \in {Solve(n, hist)} : hist' = Append(hist, o) /\ n' = n
Next == Create \/ Do
Spec == Init /\ [][Next]_<<n, hist>>
Done == Len(hist) = N => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
