-------------------------------- MODULE Gait --------------------------------
(* The gait problems of a quadruped. Feet: 1 left front, 2 right front, 3 left *)
(* hind, 4 right hind. A node of a problem is one of                           *)
(*   "swing"  the feet on stand; the feet sw follow their references           *)
(*   "touch"  an instantaneous change of velocity with the feet on standing    *)
(*   "pseudo" the same as a node that lasts no time                            *)
(* with a reference of the center of mass (<<>> if none) and the time it lasts.*)
EXTENDS BigRat, Integers, Sequences, FiniteSets
Walk4 == <<4, 2, 3, 1>> \* the order of the feet in a walk
Others(f) == SelectSeq(<<1, 2, 3, 4>>, LAMBDA g : g # f)
(* how high a foot is held at knot k of n: up to the middle of the step, then down *)
Height(k, n, h) ==
  LET p == n \div 2 IN
  IF k < p THEN RMul(h, RDiv(RInt(k), RInt(p))) ELSE IF k = p THEN h ELSE RMul(h, RSub("1", RDiv(RInt(k - p), RInt(p))))
Along(k, n, len) == RMul(len, RDiv(RInt(k + 1), RInt(n)))
\* what the feet sw, standing at pos before the step, follow at knot k
FootRef(pos, k, n, len, h) == [i \in 1..Len(pos) |-> VAdd(pos[i], <<Along(k, n, len), "0", Height(k, n, h)>>)]
Share(on, sw) == RDiv(RInt(Len(sw)), RInt(Len(on) + Len(sw)))
SwingNode(on, sw, ref, com, dt) == [t |-> "swing", on |-> on, sw |-> sw, ref |-> ref, com |-> com, dt |-> dt]
TouchNode(on, sw, ref, pseudo) == [t |-> IF pseudo THEN "pseudo" ELSE "touch", on |-> on, sw |-> sw, ref |-> ref, com |-> <<>>, dt |-> "0"]
(* a step of the feet sw: its nodes and where it leaves the center of mass and the feet *)
Step(on, sw, com, pos, len, h, dt, n) ==
  [nodes |-> [k \in 1..(n + 1) |->
                IF k <= n THEN SwingNode(on, sw, FootRef(pos, k - 1, n, len, h), VAdd(com, <<RMul(Share(on, sw), Along(k - 1, n, len)), "0", "0">>), dt)
                ELSE TouchNode(on, IF n = 0 THEN <<>> ELSE sw, IF n = 0 THEN <<>> ELSE FootRef(pos, n - 1, n, len, h), FALSE)],
   com |-> VAdd(com, <<RMul(len, Share(on, sw)), "0", "0">>), pos |-> [i \in 1..Len(pos) |-> VAdd(pos[i], <<len, "0", "0">>)]]
Stand(dt) == SwingNode(<<1, 2, 3, 4>>, <<>>, <<>>, <<>>, dt)
\* the first time the right feet move, they go half as far
Length(f, first, len) == IF first /\ f \in {2, 4} THEN RMul("1/2", len) ELSE len
Mean(feet) == LET s == VAdd(VAdd(feet[1], feet[2]), VAdd(feet[3], feet[4])) IN <<RMul("1/4", s[1]), RMul("1/4", s[2])>>
(* a walk from feet and the height of the center of mass *)
RECURSIVE Steps(_, _, _, _, _, _, _, _, _)
Steps(i, com, feet, first, len, h, dt, n, ns) ==
  IF i > 4 THEN <<>>
  ELSE LET f == Walk4[i] s == Step(Others(f), <<f>>, com, <<feet[f]>>, Length(f, first, len), h, dt, n) IN
       (IF i \in {1, 3} THEN [j \in 1..ns |-> Stand(dt)] ELSE <<>>) \o s.nodes \o Steps(i + 1, s.com, feet, first, len, h, dt, n, ns)
Walk(first, feet, cz, len, h, dt, n, ns) == Steps(1, Mean(feet) \o <<cz>>, feet, first, len, h, dt, n, ns)
(* the costs of a node of a robot with nv velocities, by name; a foot f is named by Name(f) *)
Fill(n, v) == [i \in 1..n |-> v]
StateW(t, nv) == IF t = "touch" THEN Fill(6, "1") \o Fill(2 * nv - 6, "100")
                 ELSE Fill(3, "0") \o Fill(3, "250000") \o Fill(nv - 6, "1/10000") \o Fill(6, "100") \o Fill(nv - 6, IF t = "swing" THEN "1" ELSE "100")
Cost(n, w, k, f, ref, wt) == [n |-> n, w |-> w, k |-> k, f |-> f, ref |-> ref, wt |-> wt]
CostsOf(d, stand, nv, Name(_)) ==
  (IF d.com = <<>> THEN {} ELSE {Cost("comTrack", "1000000", "com", 0, d.com, <<>>)})
  \cup {Cost(Name(d.sw[i]) \o "_footTrack", IF d.t = "swing" THEN "1000000" ELSE "10000000", "pos", d.sw[i], d.ref[i], <<>>) : i \in 1..Len(d.sw)}
  \cup (IF d.t = "pseudo" THEN {Cost(Name(d.sw[i]) \o "_impulseVel", "1000000", "vel", d.sw[i], Fill(6, "0"), <<>>) : i \in 1..Len(d.sw)} ELSE {})
  \cup {Cost("stateReg", "10", "x", 0, stand \o Fill(nv, "0"), StateW(d.t, nv))}
  \cup (IF d.t = "touch" THEN {} ELSE {Cost("ctrlReg", IF d.t = "swing" THEN "1/10" ELSE "1/1000", "u", 0, Fill(nv - 6, "0"), <<>>)})
=============================================================================
