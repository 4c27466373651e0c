------------------------------ MODULE HelpersGen ------------------------------
EXTENDS BigRat, Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES hist, open
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Log(op) == hist' = Append(hist, op)
Chars == {34, 34, 44, 10, 65, 66, 32, 59, 233, 48, 39, 92, 13}
Text(k) == TLCEval([i \in 1..k |-> RandomElement(Chars)])
Plain(k) == TLCEval([i \in 1..k |-> RandomElement(Chars \ {13})])
Ents == {"-3", "-2", "-1", "0", "1", "2", "1/2"}
Few == {"-1", "0", "1", "2"}
Spread == {"3", "2", "-1", "1/8", "-1/1000", "1/10000000", "0", "0"}
Mat(r, c, S) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RandomElement(S)])])
Scales == {"1", "1", "1048576", "1/1048576"}
\* a matrix with at most one entry in every row and column: a cyclic shift, flipped or not
Shift(r, c, k, f, v) == TLCEval([i \in 1..r |-> [j \in 1..c |-> IF (IF f THEN (i + j + k) % (IF r > c THEN r ELSE c) = 0 ELSE (i - j + 8 + k) % (IF r > c THEN r ELSE c) = 0) THEN v[i] ELSE "0"]])
GPinv == \E r \in One(R({0, 1, 1, 2, 2, 3, 3, 4}, 0)), c \in One(R({0, 1, 1, 2, 2, 3, 3, 4}, 0)), k \in One(R(0..4, 0)), f32 \in One(R(1..4, 0) = 1), kind \in One(R({"full", "low", "sparse", "zero"}, 0)),
            sc \in One(R(Scales, 0)), f \in One(R(BOOLEAN, 0)), v \in One(TLCEval([i \in 1..4 |-> RandomElement(Spread)])), eps \in One(R({"1/5", "1/1000000", "1/1000000"}, 0)), d \in One(R(BOOLEAN, 0)) :
         LET q == R({1, 1, 2}, 0)
             rr == IF f32 /\ r = 4 THEN 3 ELSE r
             cc == IF f32 /\ c = 4 THEN 3 ELSE c
             A == CASE rr = 0 \/ cc = 0 -> <<>>
                    [] kind = "zero" -> MZero(rr, cc)
                    [] kind = "sparse" -> Shift(rr, cc, k, f, v)
                    [] kind = "low" -> \* rank one or two
                         MScale(sc, MMul(Mat(rr, 2, Few), MMul(IF f THEN <<<<"1", "0">>, <<"0", "0">>>> ELSE <<<<"1", "1">>, <<"0", "1">>>>, Mat(2, cc, Few))))
                    [] OTHER -> MScale(sc, Mat(rr, cc, IF f32 THEN Few ELSE Ents))
         IN \E B \in One(A) : Log([op |-> "pinv", r |-> rr, c |-> cc, A |-> B, f32 |-> f32, dflt |-> IF kind = "sparse" THEN d ELSE TRUE, eps |-> eps])
GPsd == \E n \in One(R(1..4, 0)), k \in One(R(1..4, 0)), f32 \in One(R(1..4, 0) = 1), kind \in One(R({"gram", "gram", "any"}, 0)), sh \in One(R({"0", "0", "1/10000000000", "1/100000000", "1/1000", "1/2", "-1/2"}, 0)), C \in One(Mat(4, 4, Ents)) :
        LET m == IF f32 /\ n = 4 THEN 3 ELSE n IN
        \E B \in One(Mat(k, m, IF f32 THEN {"-1", "0", "1"} ELSE Ents)) :
        \E A \in One(IF kind = "any" THEN [i \in 1..m |-> [j \in 1..m |-> IF i <= j THEN C[i][j] ELSE C[j][i]]] ELSE MSub(MMul(MT(B), B), MScale(sh, MId(m)))) :
        Log([op |-> "psd", A |-> A, f32 |-> f32])
Ver(x) == TLCEval([i \in 1..3 |-> RandomElement({0, 1, 2, 3, 10})])
GVer == \E h \in One(Ver(0)), n \in One(Ver(0)), k \in One(R(0..3, 0)), s \in One(R(0..2, 0)), d \in One(R(BOOLEAN, 0)), sep \in One(R({0, 1, 2}, 0)) :
        Log([op |-> "version", have |-> h, need |-> [i \in 1..3 |-> IF i <= k THEN h[i] ELSE n[i]], dflt |-> d, sep |-> Plain(sep)])
GRaise == Log([op |-> "raise", m |-> Plain(R(0..6, 0)), far |-> R(BOOLEAN, 0), k |-> R({0, 5, -3, 120}, 0)])
GTick == Log([op |-> "tick", ns |-> R({0, 1, 999, 1000000, 1500000000, 2000000000, 123456789}, 0)])
GTime == Log([op |-> R({"time", "time", "treset", "tnew"}, 0)])
GOpen == Log([op |-> "open", dflt |-> R(BOOLEAN, 0), sep |-> R({<<59>>, <<44>>, <<9>>, <<32, 59>>, <<>>}, 0)]) /\ open' = TRUE
GPut == Log([op |-> "put", k |-> R({"str", "cstr", "int"}, 0), t |-> Plain(R({0, 1, 2, 3, 5, 9}, 0)), n |-> R({0, 7, -1, 42, 305, -2147483647}, 0)])
GRow == Log([op |-> "row", manip |-> R(BOOLEAN, 0)])
Stay(a) == a /\ UNCHANGED open
GNext == /\ Len(hist) < MaxOps
         /\ \E k \in One(R({"pinv", "pinv2", "psd", "psd2", "version", "raise", "tick", "time", "time2", "open"} \cup (IF open THEN {"put", "put2", "put3", "put4", "row", "row2", "flush", "close"} ELSE {"open2"}), 0)) :
            CASE k \in {"pinv", "pinv2"} -> Stay(GPinv) [] k \in {"psd", "psd2"} -> Stay(GPsd) [] k = "version" -> Stay(GVer) [] k = "raise" -> Stay(GRaise)
              [] k = "tick" -> Stay(GTick) [] k \in {"time", "time2"} -> Stay(GTime)
              [] k \in {"put", "put2", "put3", "put4"} -> Stay(GPut) [] k \in {"row", "row2"} -> Stay(GRow)
              [] k = "flush" -> Stay(Log([op |-> "flush"])) [] k = "close" -> Log([op |-> "close"]) /\ open' = FALSE
              [] OTHER -> (IF open /\ R(1..3, 0) # 1 THEN Stay(GTick) ELSE GOpen)
GSpec == hist = <<>> /\ open = FALSE /\ [][GNext]_<<hist, open>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
===============================================================================
