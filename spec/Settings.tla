------------------------------ MODULE Settings -------------------------------
(***************************************************************************)
(* Settings of solvers, box QPs, constraints and action models.  objs maps *)
(* a slot to [k |-> kind, v |-> settings].  A change is admissible or      *)
(* changes nothing.                                                        *)
(***************************************************************************)
EXTENDS BigRat, Naturals, Sequences, FiniteSets, TLC
VARIABLE objs
DDPs == {"ddp", "fddp", "boxddp", "boxfddp", "intro"}
FDDPs == {"fddp", "boxfddp", "intro"}
Solvers == DDPs \cup {"kkt", "ipopt"}
\* a running node of the problem the solvers are made for: its control dimension (the state has two entries)
BaseNames == {"preg", "dreg", "th_acceptstep", "th_stop", "th_gaptol", "feasnorm", "xs", "us"}
DDPNames == {"reg_inc", "reg_dec", "reg_min", "reg_max", "alphas", "th_stepdec", "th_stepinc", "th_grad"}
IntroNames == {"eq", "th_feas", "rho", "zero_upsilon"}
QPNames == {"nx", "maxiter", "th_acceptstep", "th_grad", "reg", "alphas"}
Stored(k) == IF k = "qp" THEN QPNames ELSE BaseNames \cup (IF k \in DDPs THEN DDPNames ELSE {}) \cup (IF k \in FDDPs THEN {"th_acceptnegstep"} ELSE {}) \cup (IF k = "intro" THEN IntroNames ELSE {})
\* the names a value can be given under: some settings have an older name or are set together
Alias(n) == CASE n = "xreg" -> {"preg"} [] n = "ureg" -> {"preg"} [] n = "regfactor" -> {"reg_inc", "reg_dec"} [] n = "regmin" -> {"reg_min"} [] n = "regmax" -> {"reg_max"} [] OTHER -> {n}
Given(k) == Stored(k) \cup (IF k = "qp" THEN {} ELSE {"xreg", "ureg"}) \cup (IF k \in DDPs THEN {"regfactor", "regmin", "regmax"} ELSE {})
Decreasing(a) == /\ Len(a) > 0 /\ RLt("0", a[1])
                 /\ \A i \in 2..Len(a) : RLt("0", a[i]) /\ RLt(a[i], a[i - 1])
Ok(k, n, v, dims) ==
  CASE n = "alphas" -> Decreasing(v)
    [] n = "xs" -> Len(v) = Len(dims) + 1 /\ \A i \in 1..Len(v) : Len(v[i]) = 2
    [] n = "us" -> Len(v) = Len(dims) /\ \A i \in 1..Len(v) : Len(v[i]) = dims[i]
    [] n \in {"preg", "dreg", "xreg", "ureg", "th_gaptol", "reg_min", "regmin", "reg_max", "regmax", "th_grad", "th_acceptnegstep", "reg"} -> RLe("0", v)
    [] n = "th_stop" -> RLt("0", v)
    [] n \in {"reg_inc", "reg_dec", "regfactor"} -> RLt("1", v)
    [] n = "th_acceptstep" -> RLt("0", v) /\ (IF k = "qp" THEN RLt(v, "1/2") ELSE RLe(v, "1"))
    [] n \in {"th_stepdec", "th_stepinc", "rho"} -> RLt("0", v) /\ RLe(v, "1")
    [] OTHER -> TRUE
Write(s, n, v) == [c \in DOMAIN s |-> IF c \in Alias(n) THEN v ELSE s[c]]
Default(k, n) ==
  CASE n \in {"preg", "dreg"} -> "0"
    [] n = "th_acceptstep" -> "1/10"
    [] n = "th_stop" -> (IF k \in {"boxddp", "boxfddp"} THEN "1/20000" ELSE "1/1000000000")
    [] n = "th_gaptol" -> "1/10000000000000000"
    [] n = "feasnorm" -> "0" [] n = "eq" -> "0" [] n = "zero_upsilon" -> "0"
    [] n \in {"reg_inc", "reg_dec"} -> "10" [] n = "reg_min" -> "1/1000000000" [] n = "reg_max" -> "1000000000"
    [] n = "th_stepdec" -> "1/2" [] n = "th_stepinc" -> "1/100"
    [] n = "th_grad" -> (IF k = "qp" THEN "1/1000000000" ELSE "1/1000000000000")
    [] n = "th_acceptnegstep" -> "2" [] n = "th_feas" -> "1/10000" [] n = "rho" -> "3/10"
    [] n = "maxiter" -> "100" [] n = "reg" -> "1/1000000000" [] OTHER -> "0"
RECURSIVE Halves(_)
Halves(n) == IF n = 1 THEN <<"1">> ELSE LET a == Halves(n - 1) IN Append(a, RDiv(a[n - 1], "2"))
\* the settings a new object starts with; a sixth default relates the step increase to the smallest step length
Initial(k, dims) ==
  [n \in Stored(k) |->
     IF n = "alphas" THEN Halves(IF k = "qp" THEN 40 ELSE 10)
     ELSE IF n = "xs" THEN [i \in 1..(Len(dims) + 1) |-> VZero(2)]
     ELSE IF n = "us" THEN [i \in 1..Len(dims) |-> VZero(dims[i])]
     ELSE Default(k, n)]
Moving == {"preg", "dreg", "xs", "us"}   \* what a solve changes
(* constraints: ng inequalities with bounds (or none after the bounds are removed: then all are equalities) and nh equalities *)
Infs(n, s) == [i \in 1..n |-> s]
TypeOf(ng, nh) == IF ng = 0 THEN "eq" ELSE IF nh = 0 THEN "ineq" ELSE "both"
Con(ng, nh) == [ng0 |-> ng, nh0 |-> nh, ng |-> ng, nh |-> nh, lb |-> Infs(ng, "-inf"), ub |-> Infs(ng, "inf"), type |-> TypeOf(ng, nh)]
Huge == "1.7976931348623157e+308"
BoundsOk(s, lo, up) ==
  /\ Len(lo) = s.ng0 /\ Len(up) = s.ng0
  /\ \A i \in 1..s.ng0 : RLt(lo[i], up[i]) /\ RLt(lo[i], Huge) /\ RLt("-" \o Huge, up[i])
Bounded(s, lo, up) == [s EXCEPT !.ng = s.ng0, !.nh = s.nh0, !.lb = lo, !.ub = up, !.type = TypeOf(s.ng0, s.nh0)]
Unbounded(s) == [s EXCEPT !.ng = 0, !.nh = s.nh0 + s.ng0, !.lb = Infs(s.ng0, "-inf"), !.ub = Infs(s.ng0, "inf"), !.type = "eq"]
(* action models: four limit vectors *)
Act(nu, ng) == [ulb |-> Infs(nu, "-inf"), uub |-> Infs(nu, "inf"), glb |-> Infs(ng, "-inf"), gub |-> Infs(ng, "inf")]
Finite(v) == \E i \in 1..Len(v) : RIsNum(v[i])
Limited(s) == Finite(s.ulb) \/ Finite(s.uub)
Limit(s, w, v) == IF Len(v) = Len(s[w]) THEN [s EXCEPT ![w] = v] ELSE s
\* transitions
Slot(i, o) == objs' = (i :> o) @@ objs
Set(i, n, v) == LET o == objs[i] IN IF Ok(o.k, n, v, o.dims) THEN Slot(i, [o EXCEPT !.v = Write(o.v, n, v)]) ELSE UNCHANGED objs
=============================================================================
