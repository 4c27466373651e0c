------------------------------ MODULE VerboseMC ------------------------------
(* All histories of configurations and solves of a callback. *)
EXTENDS Verbose
CONSTANT MaxIter
\* next: the iteration to come; last: the names printed last; age: rows since; moved: the level changed since
VARIABLES next, last, age, moved
vars == <<vb, out, next, last, age, moved>>
Names == {"cost", "merit", "stop", "d0", "preg", "dreg", "step", "||ffeas||", "||gfeas||", "||hfeas||", "dV-exp", "dV", "dPhi-exp", "dPhi"}
Vals(x) == [n \in Names |-> IF n = "d0" THEN "-3/2" ELSE x]
MCInit == vb = ("a" :> Default) /\ out = <<>> /\ next = 0 /\ last = <<>> /\ age = 0 /\ moved = FALSE
MCCall == \E x \in {"1/8", "-5/2"} :
  /\ next <= MaxIter /\ Call("a", next, Vals(x)) /\ next' = next + 1
  /\ IF Len(out') = 2 THEN last' = out'[1] /\ age' = 1 /\ moved' = FALSE ELSE age' = age + 1 /\ UNCHANGED <<last, moved>>
MCSolve == next > 0 /\ next' = 0 /\ UNCHANGED <<vb, out, last, age, moved>>
MCLevel == \E l \in 0..4 : l # vb["a"].level /\ SetLevel("a", l) /\ moved' = TRUE /\ UNCHANGED <<next, last, age>>
MCPrec == \E p \in {-1, 0, 2} : SetPrecision("a", p) /\ UNCHANGED <<next, last, age, moved>>
MCNext == MCCall \/ MCSolve \/ MCLevel \/ MCPrec
MCSpec == MCInit /\ [][MCNext]_vars
InRange == vb["a"].precision >= 0 /\ vb["a"].level \in 0..4
Recent == out # <<>> => age <= 10 /\ last # <<>>
\* under the columns that were announced last a row has a value for each
Aligned == out # <<>> /\ ~moved => Len(out[Len(out)]) = Len(last)
\* a deeper level tells everything a lower one does
Nested == \A l \in 0..3 : LET S(k) == {Cols(k)[i] : i \in 1..Len(Cols(k))} IN S(l) \subseteq S(l + 1) /\ Cardinality(S(l)) = Len(Cols(l))
Magnitude == \A k \in 1..Len(out) : \A i \in 1..Len(out[k]) : Len(out[k]) = Len(Header(vb["a"])) => (Header(vb["a"])[i] = "|grad|" /\ k = Len(out) => out[k][i] = RSci("3/2", vb["a"].precision))
=============================================================================
