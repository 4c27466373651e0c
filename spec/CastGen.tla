------------------------------- MODULE CastGen --------------------------------
(* Histories: a component is built, converted, changed and evaluated.          *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, precs, kind
R(S, x) == RandomElement(S)
One(v) == {TLCEval(v)}
Log(op) == hist' = Append(hist, op)
Kinds == {"state", "ndstate", "action", "action2", "ndaction", "diff", "nddiff", "act", "act2", "res", "cost", "con", "sum", "man", "ctl", "ndctl", "sat", "asq", "problem"}
\* inputs are multiples of 1/8 in double, of 1/10 when the conversion has to round
Par(x) == LET d == R({8, 10}, x) IN TLCEval([i \in 1..(11 + RandomElement(0..8)) |-> ToString(RandomElement(-16..16)) \o "/" \o ToString(d)])
In(x) == TLCEval([i \in 1..(7 + RandomElement(0..6)) |-> ToString(RandomElement(-16..16)) \o "/8"])
GBuild(x) == \E k \in One(R(Kinds, x)) :
  /\ Log([op |-> "build", kind |-> IF k = "action2" THEN "action" ELSE IF k = "act2" THEN "act" ELSE k, j |-> R(0..59, x), k |-> R(0..59, x), p |-> Par(x)])
  /\ precs' = ("a" :> "double") /\ kind' = k
Other(p) == IF p = "double" THEN "float" ELSE "double"
GCast(x) == \E s \in One(R(DOMAIN precs, x)) : \E t \in One(R({"a", "b", "c", "d"} \ {s}, x)) :
  Log([op |-> "cast", s |-> s, t |-> t]) /\ precs' = (t :> Other(precs[s])) @@ precs /\ UNCHANGED kind
GChange(x) == \E s \in One(R(DOMAIN precs, x)) : Log([op |-> "change", s |-> s, w |-> R(0..11, x), p |-> Par(x)]) /\ UNCHANGED <<precs, kind>>
GEval(x) == Log([op |-> "eval", t |-> R(1..4, x) = 1, p |-> In(x)]) /\ UNCHANGED <<precs, kind>>
GInit == hist = <<>> /\ precs = [s \in {} |-> ""] /\ kind = ""
GNext == /\ Len(hist) < MaxOps
         /\ IF hist = <<>> THEN GBuild(0)
            ELSE \E k \in {RandomElement({"build", "cast", "cast2", "cast3", "change", "eval", "eval2"})} :
                 CASE k = "build" -> GBuild(0) [] k = "change" -> GChange(0) [] k \in {"eval", "eval2"} -> GEval(0) [] OTHER -> GCast(0)
GSpec == GInit /\ [][GNext]_<<hist, precs, kind>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
