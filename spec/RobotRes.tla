------------------------------- MODULE RobotRes -------------------------------
(***************************************************************************)
(* Residuals of robots: what each kind is of the motion, the forces and    *)
(* the torques at a point; which data it can read; and the Gauss-Newton    *)
(* cost made of a residual and weights.  A residual m: k its kind, fr its  *)
(* frame, ty the coordinates, ref the reference, fwd whether forces come   *)
(* from the dynamics (else they are inputs), it the contacts (or impulses, *)
(* imp).                                                                   *)
(***************************************************************************)
EXTENDS Contacts
ForceKinds == {"fc", "fcone", "wcone", "cop"}
FrameKinds == {"pos", "rot", "pla", "vel"} \cup ForceKinds
\* the contact a residual of forces reads: the first on its frame; and the kinds of contacts it understands
OnFrame(m) == {i \in 1..Len(m.it) : m.it[i].c.fr = m.fr}
Reads(m) == IF OnFrame(m) = {} THEN 0 ELSE CHOOSE i \in OnFrame(m) : \A j \in OnFrame(m) : i <= j
Fits(k) == CASE k = "fc" -> {"1d", "3d", "6d"} [] k = "fcone" -> {"2d", "3d", "6d"} [] OTHER -> {"6d"}
\* it can be given data: plain ones hold nothing, those of impulses no actuation
CanRead(m, plain) ==
  CASE m.k = "x" -> TRUE
    [] m.k = "grav" -> ~plain /\ ~m.imp /\ m.it = <<>>
    [] m.k = "cgrav" -> ~plain /\ ~m.imp /\ m.it # <<>>
    [] m.k = "dvc" -> ~plain /\ m.imp
    [] m.k \in ForceKinds -> ~plain /\ Reads(m) # 0 /\ m.it[Reads(m)].c.k \in Fits(m.k)
    [] OTHER -> ~plain
\* components of the force of a contact, and a force's rows from them
PickF(c, s) == CASE c.k = "1d" -> <<s[3]>> [] c.k = "2d" -> <<s[1], s[3]>> [] c.k = "3d" -> Lin(s) [] OTHER -> s
\* columns of a matrix on forces that act on these components
Cols(c, A) == [i \in 1..Len(A) |-> IF Len(A[1]) = 3 THEN (IF c.k = "2d" THEN <<A[i][1], A[i][3]>> ELSE A[i]) ELSE A[i]]
\* a matrix on forces after the derivative D of these components
Onto(c, A, D) == IF Len(A[1]) = 3 /\ c.k = "6d" THEN MMul(A, SubSeq(D, 1, 3)) ELSE MMul(Cols(c, A), D)
\* rotation by a vector, as a matrix (rows)
Skew(w) == <<<<"0", RNeg(w[3]), w[2]>>, <<w[3], "0", RNeg(w[1])>>, <<RNeg(w[2]), w[1], "0">>>>
Turn3(w) == LET t == Norm(w) S == Skew(w) IN
            IF REq(t, "0") THEN MId(3)
            ELSE MAdd(MId(3), MAdd(MScale(RDiv(RFun("sin", t), t), S), MScale(RDiv(RSub("1", RFun("cos", t)), RMul(t, t)), MMul(S, S))))
IsLog3(w, Q, tol) == RLe(VDot(w, w), "10") /\ MClose(Turn3(w), Q, tol)
\* the shortest rotation from P to Q
FromTo(P, Q) == MMul(MT(P), Q)
\* dimension
NrOf(m) == CASE m.k = "x" -> 2 * SNv(m.rb.jk) [] m.k \in {"mom", "pla", "vel"} -> 6 [] m.k = "fc" -> m.nc [] m.k = "fcone" -> m.nf + 1 [] m.k = "wcone" -> m.nf + 13 [] m.k = "cop" -> 4
            [] m.k \in {"grav", "cgrav"} -> SNv(m.rb.jk) [] OTHER -> 3
\* the velocity of a frame in the coordinates asked for
Velocity(ty, F) == LET v == IF ty = "L" THEN F.v ELSE Rot6(M3(F.R), F.v) IN IF ty = "W" THEN VAdd(Lin(v), Cross(F.p, Ang(v))) \o Ang(v) ELSE v
\* on which parts of state and input a kind depends (a part it does not declare does not count in costs)
QDep(m) == IF m.k \in ForceKinds THEN m.fwd ELSE TRUE
VDep(m) == IF m.k \in ForceKinds THEN m.fwd ELSE m.k \in {"x", "mom", "vel", "dvc"}
UDep(m) == m.k \in ForceKinds \cup {"grav", "cgrav"}
\* the Gauss-Newton cost of a residual r with derivatives Rx and Ru and weights w
WR(w, J) == [i \in 1..Len(J) |-> VScale(w[i], J[i])]
Gn(A, w, B) == MMul(MT(A), WR(w, B))
GnCost(w, r) == RMul("1/2", VDot(r, VMulE(w, r)))
(* Residuals of forces keep derivatives in their data: they are those of the reference after every evaluation *)
Fresh(data, d, ref) == [data EXCEPT ![d] = ref]
=============================================================================
