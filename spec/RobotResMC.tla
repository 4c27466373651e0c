------------------------------ MODULE RobotResMC ------------------------------
(* The laws of RobotRes in exact arithmetic, over every history of references, data and evaluations of two data of one
   residual of forces: r = A f with f = D e, A chosen by the reference, D by the data. *)
EXTENDS RobotRes
CONSTANTS Depth
VARIABLES ref, jac, dat, last, n
MC1 == [k |-> "1d"]
MC2 == [k |-> "2d"]
MC3 == [k |-> "3d"]
MC6 == [k |-> "6d"]
As == << << <<"1", "0", "-1">>, <<"0", "1", "1/2">> >>, << <<"2", "-1", "0">>, <<"1", "1", "1">> >>, << <<"0", "0", "1">>, <<"-1", "3", "0">> >> >>
Ds(k) == [i \in 1..k |-> [j \in 1..2 |-> RInt(((i * 3 + j * 5) % 7) - 3)]]
Ds2(k) == [i \in 1..k |-> [j \in 1..2 |-> RInt(((i * 2 + j * 3) % 5) - 2)]]
Dof(c, d) == IF d = 1 THEN Ds(NcOf(c)) ELSE Ds2(NcOf(c))
Jac(c, r, d) == Onto(c, As[r], Dof(c, d))
Kindd == {MC2, MC3, MC6}
\* jac[d]: for what reference the data keep a derivative (0: none)
MCInit == ref \in 1..3 /\ jac = <<0, 0>> /\ dat = {} /\ last = 0 /\ n = 0
Make(d) == dat' = dat \cup {d} /\ jac' = Fresh(jac, d, ref) /\ last' = 0 /\ UNCHANGED ref
Refer(r) == ref' = r /\ last' = 0 /\ UNCHANGED <<jac, dat>>
Diff(d) == d \in dat /\ jac' = Fresh(jac, d, ref) /\ last' = d /\ UNCHANGED <<ref, dat>>
MCNext == n < Depth /\ n' = n + 1 /\ ((\E d \in 1..2 : Make(d) \/ Diff(d)) \/ \E r \in 1..3 : Refer(r))
MCSpec == MCInit /\ [][MCNext]_<<ref, jac, dat, last, n>>
\* an evaluation leaves the derivative of the present reference in the data it was given, whatever happened to the others
Current == last # 0 => jac[last] = ref /\ \A c \in Kindd : LET J == Jac(c, jac[last], last) IN
           \A e \in {<<"1", "0">>, <<"0", "1">>, <<"1/2", "-2">>} : VEq(MV(J, e), MV(As[ref], Lin(Spread6(c, MV(Dof(c, last), e)))))
\* the cost of a residual linear in the point is exactly what its gradient and Hessian say, and parts with no derivative do not matter
R0 == <<"1", "-1/2">>
Es == {<<"1", "0">>, <<"0", "1">>, <<"-1/2", "2">>, <<"3", "1">>}
Assembled == last # 0 => \A w \in {<<"1", "2">>, <<"0", "1">>} : \A c \in Kindd :
  LET J == Jac(c, ref, last) L == MTV(J, VMulE(w, R0), 2) H == Gn(J, w, J)
      P == [i \in 1..2 |-> <<J[i][1], "0">>] LP == MTV(P, VMulE(w, R0), 2) HP == Gn(P, w, P) IN
  /\ \A e \in Es : REq(RSub(GnCost(w, VAdd(R0, MV(J, e))), GnCost(w, R0)), RAdd(VDot(L, e), RMul("1/2", VDot(e, MV(H, e)))))
  /\ MEq(H, MT(H)) /\ \A e \in Es : RLe("0", VDot(e, MV(H, e)))
  /\ REq(LP[2], "0") /\ REq(HP[1][2], "0") /\ REq(HP[2][2], "0") /\ REq(HP[1][1], H[1][1])
\* components of forces
Picks == \A c \in {MC1, MC3, MC6} : \A s \in {<<"1", "2", "3", "-1", "-2", "1/2">>} : VEq(PickF(c, Spread6(c, PickF(c, s))), PickF(c, s)) /\ Len(PickF(c, s)) = NcOf(c)
\* rotations and their logarithms
Ws == {<<"0", "0", "0">>, <<"1", "0", "0">>, <<"0", "-3/2", "0">>, <<"1/2", "1", "-2">>, <<"0", "0", "3">>, <<"-1/2", "-1", "2">>, <<"4", "0", "0">>}
T == "1/100000000000"
Turns == last # 0 \/ n > 1 \/ \A w \in Ws : LET Q == Turn3(w) IN
  /\ MClose(MMul(Q, MT(Q)), MId(3), T) /\ MClose(Turn3(VScale("-1", w)), MT(Q), T) /\ VClose(MV(Q, w), w, T)
  /\ (IsLog3(w, Q, T) <=> RLe(VDot(w, w), "10"))
  /\ \A y \in Ws : (IsLog3(y, Q, T) => (VEq(y, w) \/ RLt("10", VDot(w, w)))) /\ MClose(FromTo(Turn3(y), MMul(Turn3(y), Q)), Q, T)
  /\ \A x \in {<<"1", "0", "-1">>, <<"0", "2", "1/2">>} : VClose(MV(Q, x), QRot(QExp(w), x), T)
=============================================================================
