------------------------------- MODULE Contacts -------------------------------
(***************************************************************************)
(* Stacks of named contacts (or impulses) of a robot, and what a contact   *)
(* of each kind asks of the frame it holds: which components of the        *)
(* frame's acceleration are prescribed (rows of the Jacobian J and drift   *)
(* a0), and which spatial force on the body a contact force is.            *)
(* A frame F: R (rows) and p placement, J local Jacobian (linear, then     *)
(* angular rows), v velocity, a acceleration, both in the frame.           *)
(***************************************************************************)
EXTENDS MbState
M3(r) == <<SubSeq(r, 1, 3), SubSeq(r, 4, 6), SubSeq(r, 7, 9)>>
Lin(s) == SubSeq(s, 1, 3)
Ang(s) == SubSeq(s, 4, 6)
NcOf(c) == CASE c.k = "1d" -> 1 [] c.k = "2d" -> 2 [] c.k = "3d" -> 3 [] OTHER -> 6
InWorld(c) == c.k # "2d" /\ c.ty # "L"
\* rotates linear and angular parts
Rot6(Q, s) == MV(Q, Lin(s)) \o MV(Q, Ang(s))
RotJ(Q, J) == MMul(Q, Lin(J)) \o MMul(Q, Ang(J))
\* the local frame's motion in the coordinates of the contact
Coord(c, F, s) == IF InWorld(c) THEN Rot6(M3(F.R), s) ELSE s
\* the prescribed components of a motion already in these coordinates
Pick(c, s) ==
  CASE c.k = "1d" -> <<MV(M3(c.Ra), Lin(s))[3]>>
    [] c.k = "2d" -> <<s[1], s[3]>>
    [] c.k = "3d" -> Lin(s)
    [] OTHER -> s
PickJ(c, J) ==
  CASE c.k = "1d" -> <<MMul(M3(c.Ra), Lin(J))[3]>>
    [] c.k = "2d" -> <<J[1], J[3]>>
    [] c.k = "3d" -> Lin(J)
    [] OTHER -> J
CJac(c, F) == PickJ(c, IF InWorld(c) THEN RotJ(M3(F.R), F.J) ELSE F.J)
\* acceleration of the contact point as seen from outside (classical), or of the body as a motion (6d)
Classical(F) == VAdd(Lin(F.a), Cross(Ang(F.v), Lin(F.v)))
\* where the reference point of a contact is
Anchor(c) == IF c.k = "1d" THEN MV(M3(c.Ra), <<"0", "0", c.pr[3]>>) ELSE c.pr
\* log is the displacement from the reference placement to that of the frame (6d)
Drift(c, F, log) ==
  LET Z == VZero(3) IN
  CASE c.k = "6d" -> Pick(c, Coord(c, F, VAdd(F.a, VAdd(VScale(c.g[1], log), VScale(c.g[2], F.v)))))
    [] c.k = "2d" -> VAdd(Pick(c, VAdd(Classical(F), VScale(c.g[2], Lin(F.v))) \o Z), VScale(c.g[1], Pick(c, VSub(F.p, c.pr) \o Z)))
    [] OTHER -> LET e == MV(MT(M3(F.R)), VSub(F.p, Anchor(c))) IN
                Pick(c, Coord(c, F, VAdd(Classical(F), VAdd(VScale(c.g[1], e), VScale(c.g[2], Lin(F.v)))) \o Z))
\* the force in the coordinates of the contact
Spread6(c, f) == CASE c.k = "1d" -> <<"0", "0", f[1], "0", "0", "0">> [] c.k = "2d" -> <<f[1], "0", f[2], "0", "0", "0">> [] c.k = "3d" -> f \o VZero(3) [] OTHER -> f
\* and as a spatial force at the body the frame is fixed to (placement jR, jt in the body)
OnBody(c, F, jR, jt, f) ==
  LET s0 == Spread6(c, f)
      s1 == IF c.k = "1d" THEN Rot6(MT(M3(c.Ra)), s0) ELSE s0
      s == IF InWorld(c) THEN Rot6(MT(M3(F.R)), s1) ELSE s1
      g == Rot6(M3(jR), s)
  IN Lin(g) \o VAdd(Ang(g), Cross(jt, Lin(g)))
(* The stack: a sequence of items (name, contact, active, birth) in the order of their names *)
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> \/ x.id < s[1].id THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
Has(s, id) == \E i \in 1..Len(s) : s[i].id = id
Add(s, x) == IF Has(s, x.id) THEN s ELSE Insert(s, x)
Remove(s, id) == SelectSeq(s, LAMBDA x : x.id # id)
Turn(s, id, on) == [i \in 1..Len(s) |-> IF s[i].id = id THEN [s[i] EXCEPT !.on = on] ELSE s[i]]
Active(s) == SelectSeq(s, LAMBDA x : x.on)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE NcOf(s[1].c) + Total(Tail(s))
Births(s) == [i \in 1..Len(s) |-> s[i].b]
\* first row of item i: rows only of active items, or of all of them
RECURSIVE First(_, _, _)
First(s, all, i) == IF i = 1 THEN 1 ELSE First(s, all, i - 1) + (IF all \/ s[i - 1].on THEN NcOf(s[i - 1].c) ELSE 0)
Rows(s, all) == IF all THEN Total(s) ELSE Total(Active(s))
=============================================================================
