------------------------------- MODULE Verbose --------------------------------
(***************************************************************************)
(* The verbose callback.  vb maps a slot to the configuration of a callback  *)
(* (level, precision); out is what the last call printed: a list of lines,   *)
(* each a list of words.  A call for an iteration with the values `v` prints *)
(* one row with the number of the iteration and the columns of the level;    *)
(* every tenth iteration is preceded by the names of the columns.            *)
(***************************************************************************)
EXTENDS BigRat, Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES vb, out
Cols(level) ==
  CASE level = 0 -> <<"cost", "stop", "|grad|", "preg", "step", "dV-exp", "dV">>
    [] level = 1 -> <<"cost", "merit", "stop", "|grad|", "preg", "step", "||ffeas||", "dV-exp", "dV">>
    [] level = 2 -> <<"cost", "merit", "stop", "|grad|", "preg", "dreg", "step", "||ffeas||", "dV-exp", "dV">>
    [] level = 3 -> <<"cost", "merit", "stop", "|grad|", "preg", "dreg", "step", "||ffeas||", "||gfeas||", "||hfeas||", "dV-exp", "dV">>
    [] level = 4 -> <<"cost", "merit", "stop", "|grad|", "preg", "dreg", "step", "||ffeas||", "||gfeas||", "||hfeas||", "dV-exp", "dV", "dPhi-exp", "dPhi">>
Default == [level |-> 4, precision |-> 3]
Field(c, v, p) == IF c = "step" THEN RFix(v[c], 4) ELSE IF c = "|grad|" THEN (IF RIsNum(v["d0"]) THEN RSci(RAbs(v["d0"]), p) ELSE IF v["d0"] = "-inf" THEN "inf" ELSE v["d0"]) ELSE RSci(v[c], p)
Header(c) == <<"iter">> \o Cols(c.level)
Row(c, iter, v) == <<ToString(iter)>> \o [i \in 1..Len(Cols(c.level)) |-> Field(Cols(c.level)[i], v, c.precision)]
Lines(c, iter, v) == (IF iter % 10 = 0 THEN <<Header(c)>> ELSE <<>>) \o <<Row(c, iter, v)>>
Put(s, c) == vb' = (s :> c) @@ vb
New(s, level, p) == (IF p < 0 THEN UNCHANGED vb ELSE Put(s, [level |-> level, precision |-> p])) /\ out' = <<>>
SetLevel(s, level) == Put(s, [vb[s] EXCEPT !.level = level]) /\ out' = <<>>
SetPrecision(s, p) == (IF p < 0 THEN UNCHANGED vb ELSE Put(s, [vb[s] EXCEPT !.precision = p])) /\ out' = <<>>
Call(s, iter, v) == UNCHANGED vb /\ out' = Lines(vb[s], iter, v)
=============================================================================
