------------------------ MODULE ConstraintStackGen --------------------------
EXTENDS ConstraintStack, TLC, Json
CONSTANTS MaxOps, Emit, Shifts
VARIABLE hist
gvars == <<vars, hist>>
Pick(S) == IF Emit /\ S # {} THEN {RandomElement(S)} ELSE S
Log(op) == hist' = Append(hist, op)
GAdd == \E n \in Pick(Names), i \in Pick(Ids), a \in Pick(BOOLEAN) :
   /\ Log([op |-> "add", n |-> n, i |-> i, a |-> a])
   /\ IF AddOk(i) THEN Add(n, i, a) ELSE UNCHANGED vars
GRemove == \E n \in Pick(Names) : Remove(n) /\ Log([op |-> "remove", n |-> n])
GToggle == \E n \in Pick(Names), a \in Pick(BOOLEAN) : Toggle(n, a) /\ Log([op |-> "toggle", n |-> n, a |-> a])
GBounds == \E n \in Pick({m \in Names : Has(m)}), s \in Pick(Shifts) : Bounds(n, s) /\ Log([op |-> "bounds", n |-> n, s |-> s])
GData == \E d \in Pick(1..3), s \in Pick(BOOLEAN) : CreateData(d) /\ Log([op |-> "data", d |-> d, share |-> s])
Small(k) == [j \in 1..2 |-> ((k * j + j) % 7) - 3]
GEval == \E d \in Pick({e \in DOMAIN datas : EvalDefined(e)}), k \in Pick(0..9), t \in Pick({"eval", "evalT"}), bad \in Pick(0..12) :
   /\ Log([op |-> t, d |-> d, x |-> IF bad = 0 THEN <<1, 2, 3>> ELSE Small(k), u |-> IF bad = 1 THEN <<1>> ELSE Small(k + 3)])
   /\ UNCHANGED vars
GInit == Init /\ hist = <<>>
Kinds == {"add", "add2", "toggle", "toggle2", "remove", "data"}
   \cup (IF act \cup inact = {} THEN {} ELSE {"bounds"})
   \cup (IF {e \in DOMAIN datas : EvalDefined(e)} = {} THEN {} ELSE {"eval", "eval2", "eval3"})
Do(k) == CASE k \in {"add", "add2"} -> GAdd [] k \in {"toggle", "toggle2"} -> GToggle [] k = "remove" -> GRemove
           [] k = "data" -> GData [] k = "bounds" -> GBounds [] OTHER -> GEval
RNext == Len(hist) < MaxOps /\ LET k == RandomElement(Kinds) IN Do(k)
RSpec == GInit /\ [][RNext]_gvars
MCNext == GAdd \/ GRemove \/ GToggle \/ GBounds
MCSpec == GInit /\ [][MCNext]_gvars
Done == Emit /\ Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
View == vars
=============================================================================
