------------------------------ MODULE HelpersMC -------------------------------
(* Every short table reads back as what was put into it; versions are ordered; sparse pseudo-inverses meet the conditions. *)
EXTENDS Helpers
CONSTANTS MaxPuts
VARIABLES t, rows, row
Fields == {<<>>, <<QUOTE>>, <<44>>, <<65, QUOTE>>, <<QUOTE, QUOTE>>, <<NEWLINE>>}
Nums == {0, -12, 305}
Init == t = Opened(<<44>>) /\ rows = <<>> /\ row = <<>>
Count == Len(row) + Len(rows)
PutAny == /\ Len(t.text) < MaxPuts * 5 /\ Count < MaxPuts
          /\ \E f \in {Quoted(x) : x \in Fields} \cup {Number(n) : n \in Nums} : t' = Put(t, f) /\ row' = Append(row, f)
          /\ UNCHANGED rows
EndRow == Count < MaxPuts /\ row # <<>> /\ t' = Row(t) /\ rows' = Append(rows, row) /\ row' = <<>>
Next == PutAny \/ EndRow
Spec == Init /\ [][Next]_<<t, rows, row>>
ReadsBack == Split(t.text, 1, <<>>, <<>>) = (IF row = <<>> THEN rows ELSE Append(rows, row))
Unquoted == \A a, b \in Fields : Quoted(a) = Quoted(b) => a = b
Vs == {<<a, b, c>> : a \in 0..2, b \in 0..2, c \in 0..2}
ASSUME Ordered == \A a, b \in Vs : /\ (AtLeast(a, b) \/ AtLeast(b, a)) /\ (AtLeast(a, b) /\ AtLeast(b, a) => a = b)
                                   /\ \A c \in Vs : AtLeast(a, b) /\ AtLeast(b, c) => AtLeast(a, c)
Es == {"0", "2", "-1/2"}
Ms == {<<<<a, "0", "0">>, <<"0", "0", b>>>> : a \in Es, b \in Es} \cup {<<<<a>>, <<"0">>>> : a \in Es} \cup {<<<<"0", a>>, <<b, "0">>>> : a \in Es, b \in Es}
ASSUME Inverses == \A A \in Ms : Sparse(A) /\ Penrose(A, SparseInverse(A, "1/1000"), "0")
\* nothing else meets the conditions: a change of one entry breaks them
Bump(P, i, j) == [P EXCEPT ![i][j] = RAdd(@, "1/8")]
ASSUME Unique == \A A \in Ms : LET P == SparseInverse(A, "1/1000") IN \A i \in 1..Len(P) : \A j \in 1..Len(P[1]) : ~Penrose(A, Bump(P, i, j), "0")
ASSUME Definite == /\ Above(<<<<"1", "1">>, <<"1", "1">>>>, "1/1000") /\ ~Above(<<<<"1", "2">>, <<"2", "1">>>>, "1/1000")
                   /\ ~Above(<<<<"0", "1/2">>, <<"1/2", "0">>>>, "1/3") /\ Above(<<<<"0", "1/2">>, <<"1/2", "0">>>>, "2/3")
===============================================================================
