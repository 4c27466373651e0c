------------------------------ MODULE RobotDynMC ------------------------------
(* Three coordinates, exact arithmetic: the equations of RobotDyn have the laws of mechanics.  A history of impacts with
   changing sets of contacts (v is the velocity, e0 the energy before), and at every state the forward dynamics solved
   exactly for some torques. *)
EXTENDS RobotDyn
CONSTANTS Depth
VARIABLES v, e0, n, mi, rc, held, last
Ms == << MDiag(<<"1", "2", "1/2">>), <<<<"2", "1", "0">>, <<"1", "2", "-1/2">>, <<"0", "-1/2", "1">>>>, <<<<"3", "-1", "1">>, <<"-1", "1", "0">>, <<"1", "0", "2">>>> >>
Rws == << <<"1", "0", "1">>, <<"0", "1", "-1">>, <<"1/2", "1", "1">> >>
Rob == [fj |-> <<0>>, jk |-> <<1, 1, 1>>]
One3(k) == [j \in 1..3 |-> IF j = k THEN "1" ELSE "0"]
C1 == [k |-> "1d", fr |-> 1]
Items(s) == [i \in 1..3 |-> [id |-> i, c |-> C1, on |-> i \in s]]
RECURSIVE RowsOf(_, _)
RowsOf(s, i) == IF i = 0 THEN <<>> ELSE RowsOf(s, i - 1) \o (IF i \in s THEN <<Rws[i]>> ELSE <<>>)
Act(on, mu, r, s) == [rb |-> Rob, k |-> "cf", act |-> "part", on |-> on, ac |-> "0", as |-> "0", ak |-> "0", mu |-> mu, rc |-> r, arm |-> <<"0", "1", "1/2">>, it |-> Items(s), costs |-> <<>>, user |-> <<>>]
Lib(m, s) == [M |-> Ms[m], nle |-> <<"1", "-2", "1/2">>, J |-> RowsOf(s, 3), a0 |-> [i \in 1..Len(RowsOf(s, 3)) |-> RInt(i)]]
Head3(a) == SubSeq(a, 1, 3)
Col(X) == [i \in 1..Len(X) |-> X[i][1]]
\* the solution z of [M J'; J -mu] (a, -f) = (p, q)
Kkt(m, L) == LET k == Len(L.J) I == Inertia(m, L) IN
             [i \in 1..(3 + k) |-> IF i <= 3 THEN I[i] \o [r \in 1..k |-> L.J[r][i]] ELSE L.J[i - 3] \o [r \in 1..k |-> IF r = i - 3 THEN RNeg(m.mu) ELSE "0"]]
Solve(m, L, p, q) == LET s == p \o q IN Col(MSolve(Kkt(m, L), [i \in 1..Len(s) |-> <<s[i]>>]))
ForceOf(z) == [i \in 1..(Len(z) - 3) |-> RNeg(z[i + 3])]
MCInit == v \in {<<"1", "0", "-1">>, <<"-2", "1/2", "1">>} /\ e0 = "none" /\ n = 0 /\ mi \in 1..3 /\ rc \in {"0", "1/2", "1"} /\ held = {} /\ last = v
M0(s) == Act(<<0, 1, 2>>, "0", rc, s)
Energy(w) == RMul("1/2", VDot(w, MV(Inertia(M0({}), Lib(mi, {})), w)))
Hit == \E s \in {{}, {1}, {2}, {1, 2}, {1, 3}, {1, 2, 3}} :
       LET m == M0(s) L == Lib(mi, s) z == Solve(m, L, MV(Inertia(m, L), v), IF s = {} THEN <<>> ELSE VScale(RNeg(rc), MV(L.J, v))) IN
       n < Depth /\ v' = Head3(z) /\ last' = v /\ e0' = Energy(v) /\ n' = n + 1 /\ held' = s /\ UNCHANGED <<mi, rc>>
MCSpec == MCInit /\ [][Hit]_<<v, e0, n, mi, rc, held, last>>
\* the impact law holds of the solution, and of no other velocity
Law == n > 0 => LET m == M0(held) L == Lib(mi, held) z == Solve(m, L, MV(Inertia(m, L), last), IF held = {} THEN <<>> ELSE VScale(RNeg(rc), MV(L.J, last))) IN
                /\ Strikes(m, L, last, v, ForceOf(z), "0") /\ \A k \in 1..3 : ~Strikes(m, L, last, VAdd(v, One3(k)), ForceOf(z), "0")
\* energy is lost exactly through imperfect restitution
Lost == n > 0 => LET J == RowsOf(held, 3) IN
        /\ RLe(Energy(v), e0)
        /\ ((rc = "1" \/ held = {} \/ VEq(MV(J, last), VZero(Len(J)))) <=> REq(Energy(v), e0))
        /\ (held # {} /\ rc = "0" => VEq(MV(J, v), VZero(Len(J))))
\* forward dynamics solved exactly: the law holds, only there; inverse dynamics gives the torques back
Us == {<<"1", "0", "-1">>, <<"0", "2", "1/2">>}
Forward == n > 1 \/ \A u \in Us : \A mu \in {"0", "1/2"} : \A s \in {{}, {2}, {1, 3}} : \A on \in {<<0, 1, 2>>, <<1>>, <<0, 2>>} :
  LET m == Act(on, mu, "0", s) L == Lib(mi, s) t == Torque(m, v, v, SubSeq(u, 1, Len(on))) z == Solve(m, L, VSub(t, L.nle), [i \in 1..Len(L.J) |-> RNeg(L.a0[i])]) a == Head3(z) f == ForceOf(z)
      m1 == [m EXCEPT !.arm = VZero(3)] z1 == Solve(m1, L, VSub(t, L.nle), [i \in 1..Len(L.J) |-> RNeg(L.a0[i])]) g == Needed(m1, L, Head3(z1), ForceOf(z1)) IN
  /\ Moves(m, L, t, a, f, "0") /\ Holds(m, L, a, f, "0")
  /\ \A k \in 1..3 : ~(Moves(m, L, t, VAdd(a, One3(k)), f, "0") /\ Holds(m, L, VAdd(a, One3(k)), f, "0"))
  /\ VEq(Sel(g, Acted(m)), SubSeq(u, 1, Len(on))) /\ VEq(Sel(g, Free(m)), VZero(3 - Len(on)))
  /\ Len(Acted(m)) + Len(Free(m)) = 3
\* quasi-static inputs: a certified solution is the shortest of the closest (compared with its neighbours)
Dirs(k) == {[j \in 1..k |-> IF j = i THEN e ELSE "0"] : i \in 1..k, e \in {"1/4", "-1/4"}}
Res(A, z, g) == LET r == VSub(MV(A, z), g) IN VDot(r, r)
Quasi == n > 0 \/ \A on \in {<<0, 1, 2>>, <<1>>, <<0, 2>>} : \A s \in {{}, {2}, {1, 3}} : \A w \in {<<"1", "0", "-1">>, <<"1/2", "1", "2">>} :
  LET m == Act(on, "0", "0", s) A == StillA(m, RowsOf(s, 3)) g == MV(A, Still(A, w)) IN
  /\ IsStill(A, g, w, "0")
  /\ \A d \in Dirs(Len(A[1])) : LET z == Still(A, w) y == VAdd(z, d) IN RLt(Res(A, z, g), Res(A, y, g)) \/ RLt(VDot(z, z), VDot(y, y))
=============================================================================
