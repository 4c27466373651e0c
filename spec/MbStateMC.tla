------------------------------ MODULE MbStateMC ------------------------------
(* The laws of motions of a floating base, on small points and displacements. *)
EXTENDS MbState
VARIABLES q, d
Qs == {<<"0", "0", "0", "1">>, <<"1/5", "2/5", "2/5", "4/5">>, <<"-2/7", "-3/7", "0", "-6/7">>}
Ds == {<<a, b, "1/2", c, e, f>> : a \in {"-1", "1/4"}, b \in {"0", "1"}, c \in {"0", "1"}, e \in {"0", "1/2"}, f \in {"0", "-3/4"}}
MCInit == q \in {<<"1", t, "0">> \o r : t \in {"0", "-2"}, r \in Qs} /\ d \in Ds
MCSpec == MCInit /\ [][FALSE /\ UNCHANGED <<q, d>>]_<<q, d>>
T == "1/1000000000000"
Near(a, b) == VClose(a, b, T)
Stay == Near(FMove(q, VZero(6)), q)
Unit1 == RClose(VDot(SubSeq(FMove(q, d), 4, 7), SubSeq(FMove(q, d), 4, 7)), "1", T)
\* motions along one displacement add up, and can be undone
Adds == Near(FMove(FMove(q, d), d), FMove(q, VScale("2", d)))
Back == Near(FMove(FMove(q, d), VScale("-1", d)), q)
\* rotations keep lengths and angles
Rigid == LET r == SubSeq(q, 4, 7) a == SubSeq(d, 1, 3) b == <<"1", "2", "3">> IN RClose(VDot(QRot(r, a), QRot(r, b)), VDot(a, b), T) /\ Near(QRot(r, Cross(a, b)), Cross(QRot(r, a), QRot(r, b)))
Compose == LET r == SubSeq(q, 4, 7) s == QExp(SubSeq(d, 4, 6)) IN Near(QRot(QMul(r, s), <<"1", "2", "3">>), QRot(r, QRot(s, <<"1", "2", "3">>)))
\* a frame moved before is the same as moved after: the motion is given in the base's own frame
Frame == LET g == <<"3", "-1", "2", "0", "3/5", "0", "4/5">> G(p) == VAdd(SubSeq(g, 1, 3), QRot(SubSeq(g, 4, 7), SubSeq(p, 1, 3))) \o QMul(SubSeq(g, 4, 7), SubSeq(p, 4, 7)) IN Near(FMove(G(q), d), G(FMove(q, d)))
=============================================================================
