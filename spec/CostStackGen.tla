--------------------------- MODULE CostStackGen -----------------------------
EXTENDS CostStack, TLC, Json
CONSTANTS MaxOps, Emit, Weights
GenWeights == {0, 1, 3, 1000, 0 - 2}
VARIABLE hist
gvars == <<items, nr, nrt, act, inact, datas, hist>>
Pick(S) == IF Emit /\ S # {} THEN {RandomElement(S)} ELSE S
Log(op) == hist' = Append(hist, op)
GAdd == \E n \in Pick(Names), i \in Pick(Ids), w \in Pick(Weights), a \in Pick(BOOLEAN), via \in Pick({"add", "addItem"}) :
   /\ Log([op |-> via, n |-> n, i |-> i, w |-> w, a |-> a])
   /\ IF AddOk(i) THEN Add(n, i, w, a) ELSE UNCHANGED vars
GRemove == \E n \in Pick(Names) : Remove(n) /\ Log([op |-> "remove", n |-> n])
GToggle == \E n \in Pick(Names), a \in Pick(BOOLEAN) : Toggle(n, a) /\ Log([op |-> "toggle", n |-> n, a |-> a])
GWeight == \E n \in Pick({m \in Names : Has(m)}), w \in Pick(Weights) : Weight(n, w) /\ Log([op |-> "weight", n |-> n, w |-> w])
GData == \E d \in Pick(1..3), s \in Pick(BOOLEAN) : CreateData(d) /\ Log([op |-> "data", d |-> d, share |-> s])
Small(k) == [j \in 1..2 |-> ((k * j + j) % 7) - 3]
GEval == \E d \in Pick({e \in DOMAIN datas : EvalDefined(e)}), k \in Pick(0..9), t \in Pick({"eval", "evalT"}), bad \in Pick(0..12) :
   /\ Log([op |-> t, d |-> d, x |-> IF bad = 0 THEN <<1, 2, 3>> ELSE Small(k), u |-> IF bad = 1 THEN <<1>> ELSE Small(k + 3)])
   /\ UNCHANGED vars
GInit == Init /\ hist = <<>>
Kinds == {"add", "add2", "toggle", "toggle2", "remove", "data"}
   \cup (IF act \cup inact = {} THEN {} ELSE {"weight"})
   \cup (IF {e \in DOMAIN datas : EvalDefined(e)} = {} THEN {} ELSE {"eval", "eval2", "eval3"})
Do(k) == CASE k \in {"add", "add2"} -> GAdd [] k \in {"toggle", "toggle2"} -> GToggle [] k = "remove" -> GRemove
           [] k = "data" -> GData [] k = "weight" -> GWeight [] OTHER -> GEval
RNext == Len(hist) < MaxOps /\ LET k == RandomElement(Kinds) IN Do(k)
RSpec == GInit /\ [][RNext]_gvars
MCNext == GAdd \/ GRemove \/ GToggle \/ GWeight
MCSpec == GInit /\ [][MCNext]_gvars
Done == Emit /\ Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
View == vars
=============================================================================
