------------------------------- MODULE Helpers --------------------------------
(***************************************************************************)
(* Helpers the library offers beside its models: pseudo-inverses and       *)
(* definiteness checks, written tables, version comparisons, errors and    *)
(* timers.  Texts are sequences of character codes; a table is the text    *)
(* written so far and whether the row has begun; a timer the nanoseconds   *)
(* since its start.                                                        *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences, TLC
QUOTE == 34
NEWLINE == 10
\* ---- tables
RECURSIVE Doubled(_)
Doubled(t) == IF t = <<>> THEN <<>> ELSE (IF t[1] = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<t[1]>>) \o Doubled(SubSeq(t, 2, Len(t)))
Quoted(t) == <<QUOTE>> \o Doubled(t) \o <<QUOTE>>
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Number(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
Opened(sep) == [sep |-> sep, text |-> <<>>, begun |-> FALSE]
Put(t, field) == [t EXCEPT !.text = @ \o (IF t.begun THEN t.sep ELSE <<>>) \o field, !.begun = TRUE]
Row(t) == [t EXCEPT !.text = Append(@, NEWLINE), !.begun = FALSE]
\* reading a table back: the fields of each finished row, for one-character separators other than quotes, digits and newlines
RECURSIVE ReadField(_, _, _)
\* from position i, outside (st = 0), inside quotes (1), after a quote inside quotes (2)
ReadField(s, i, st) ==
  IF i > Len(s) THEN i
  ELSE IF st = 1 THEN ReadField(s, i + 1, IF s[i] = QUOTE THEN 2 ELSE 1)
  ELSE IF st = 2 /\ s[i] = QUOTE THEN ReadField(s, i + 1, 1)
  ELSE IF st = 0 /\ s[i] = QUOTE THEN ReadField(s, i + 1, 1)
  ELSE IF s[i] \in {44, NEWLINE} THEN i
  ELSE ReadField(s, i + 1, st)
RECURSIVE Split(_, _, _, _)
Split(s, i, row, rows) ==
  IF i > Len(s) THEN rows
  ELSE LET e == ReadField(s, i, 0) f == SubSeq(s, i, e - 1) IN
       IF e > Len(s) THEN Append(rows, Append(row, f))
       ELSE IF s[e] = NEWLINE THEN Split(s, e + 1, <<>>, Append(rows, Append(row, f)))
       ELSE Split(s, e + 1, Append(row, f), rows)
\* ---- versions
AtLeast(h, n) == \/ h[1] > n[1]
                 \/ h[1] = n[1] /\ h[2] > n[2]
                 \/ h[1] = n[1] /\ h[2] = n[2] /\ h[3] >= n[3]
VersionText(h, sep) == Number(h[1]) \o sep \o Number(h[2]) \o sep \o Number(h[3])
\* ---- matrices
MaxAbs(A) == LET F[i \in 0..Len(A)] == IF i = 0 THEN "0" ELSE RMax(F[i - 1], VNormInf(A[i])) IN F[Len(A)]
Near(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : RIsNum(A[i][j]) /\ RLe(RAbs(RSub(A[i][j], B[i][j])), tol)
\* the four conditions that make P the pseudo-inverse of A
Penrose(A, P, e) ==
  LET AP == MMul(A, P) PA == MMul(P, A) a == RMax("1", RMul(MaxAbs(A), MaxAbs(P))) t == RMul(e, RMul(a, a)) IN
  /\ MIsNum(P)
  /\ Near(MMul(AP, A), A, RMul(t, MaxAbs(A))) /\ Near(MMul(PA, P), P, RMul(t, MaxAbs(P)))
  /\ Near(AP, MT(AP), t) /\ Near(PA, MT(PA), t)
\* the pseudo-inverse of a matrix with at most one entry in every row and column (p the column of the entry of each row, 0 none)
Kept(x, A, eps) == LET m == Len(A) n == Len(A[1]) IN ~REq(x, "0") /\ RLt(RMul(eps, RMul(RInt(IF m > n THEN m ELSE n), MaxAbs(A))), RAbs(x))
SparseInverse(A, eps) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> IF Kept(A[i][j], A, eps) THEN RDiv("1", A[i][j]) ELSE "0"]]
Sparse(A) == /\ \A i \in 1..Len(A) : \A j, k \in 1..Len(A[1]) : j # k => REq(A[i][j], "0") \/ REq(A[i][k], "0")
             /\ \A j \in 1..Len(A[1]) : \A i, k \in 1..Len(A) : i # k => REq(A[i][j], "0") \/ REq(A[k][j], "0")
\* definiteness: every eigenvalue above -e
Above(A, e) == MIsPD(MAdd(A, MScale(e, MId(Len(A)))))
===============================================================================
