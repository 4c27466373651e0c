------------------------------- MODULE ConesMC -------------------------------
(* What the linearised models mean, on grids of forces and contact wrenches. *)
EXTENDS Cones, TLC
CONSTANTS Deep
Tol == "1/1000000000"
Grid == IF Deep THEN {"-2", "-1", "-1/2", "-1/4", "0", "1/4", "1/2", "1", "2"} ELSE {"-1", "-1/2", "0", "1/2", "1"}
Mus == {"0", "1/2", "1"}
Nfs == IF Deep THEN {4, 6, 8, 10, 12} ELSE {4, 6, 8}
Rx == <<<<"1", "0", "0">>, <<"0", "3/5", "-4/5">>, <<"0", "4/5", "3/5">>>>
Rz == <<<<"5/13", "-12/13", "0">>, <<"12/13", "5/13", "0">>, <<"0", "0", "1">>>>
Rots == {Id3, MMul(Rx, Rz)}
VARIABLES R, mu, nf, inner
Init == R \in Rots /\ mu \in Mus /\ nf \in Nfs /\ inner \in BOOLEAN
Spec == Init /\ [][FALSE]_<<R, mu, nf, inner>>
Cone == Updated(Made("friction", R, mu, nf, inner, "0", "3/2", <<"1", "1">>))
Coulomb(f) == RLe("0", f[3]) /\ RLe(f[3], "3/2") /\ RLe(RAdd(RMul(f[1], f[1]), RMul(f[2], f[2])), RAdd(RMul(RMul(mu, mu), RMul(f[3], f[3])), Tol))
\* the inner approximation only accepts forces in the cone of Coulomb, the outer one accepts all of them
Approximation == \A x \in Grid, y \in Grid, z \in Grid : LET f == <<x, y, z>> a == Accepts(Cone, World(R, f), Tol) IN
                 IF inner THEN a => Coulomb(f) ELSE (Coulomb(f) => a)
\* ... and touches it: facet midpoints (outer) and edges (inner) are on the cone
Tight == IF nf = 2 THEN TRUE ELSE \A i \in 0..(nf - 1) :
         LET th == IF inner THEN RDiv(RMul(Pi, RInt(2 * i + 1)), RInt(nf)) ELSE RDiv(RMul(Pi, RInt(2 * i)), RInt(nf))
             f == World(R, <<RMul(mu, RFun("cos", th)), RMul(mu, RFun("sin", th)), "1">>)
             g == World(R, <<RMul(RAdd(mu, "1/100"), RFun("cos", th)), RMul(RAdd(mu, "1/100"), RFun("sin", th)), "1">>) IN
         Accepts(Cone, f, Tol) /\ ~Accepts(Cone, g, "1/100000")
\* wrench of a force at a point of the sole
Wrench(p, f) == f \o <<RSub(RMul(p[2], f[3]), "0"), RNeg(RMul(p[1], f[3])), RSub(RMul(p[1], f[2]), RMul(p[2], f[1]))>>
Box == <<"1/2", "1/4">>
Corners == {<<a, b>> : a \in {"1/4", "-1/4"}, b \in {"1/8", "-1/8"}}
Rays == {<<a, b, "1">> : a \in {mu, RNeg(mu)}, b \in {mu, RNeg(mu)}}
WCone == Updated(Made("wrench", R, mu, 4, FALSE, "0", "inf", Box))
Both(w) == World(R, SubSeq(w, 1, 3)) \o World(R, SubSeq(w, 4, 6))
Extreme == {Both(Wrench(p, f)) : p \in Corners, f \in Rays}
\* forces within the pyramid at the corners of the sole give accepted wrenches, and every facet is reached by some
WrenchSound == \A w \in Extreme : Accepts(WCone, w, Tol)
WrenchTight == \A r \in (1..Len(WCone.A)) \ {5} : \E w \in Extreme : RClose(VDot(WCone.A[r], w), "0", Tol)
\* the support region is the part of the wrench cone about the centre of pressure, which it keeps in the rectangle
SupportPart == SubSeq(WCone.A, 6, 9) = Updated(Made("cop", R, mu, 4, FALSE, "0", "inf", Box)).A
CoP == \A x \in Grid, y \in Grid, z \in {"1/2", "1"} :
         LET w == Both(Wrench(<<x, y>>, <<"0", "0", z>>)) IN
         Accepts(Updated(Made("cop", R, mu, 4, FALSE, "0", "inf", Box)), w, Tol) <=> (RLe(RAbs(x), "1/4") /\ RLe(RAbs(y), "1/8"))
=============================================================================
