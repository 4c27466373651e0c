----------------------------- MODULE BoxQPTrace -----------------------------
EXTENDS BoxQP, TLC, Json, IOUtils
VARIABLES s, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Sol(r) == [x |-> r.sx, free |-> r.free, clamped |-> r.clamped, inv |-> r.inv]
TraceInit == s = [n |-> 0, reg |-> "0", th |-> "0", sol |-> [x |-> <<>>]] /\ l = 1
TNew == Is("new") /\ R.n = R.nx /\ s' = [n |-> R.n, reg |-> R.reg, th |-> R.th, sol |-> [x |-> <<>>]] /\ Adv
TResize == Is("resize") /\ R.nx = R.n /\ s' = [s EXCEPT !.n = R.n, !.sol = [x |-> <<>>]] /\ Adv
TReg == Is("reg") /\ s' = [s EXCEPT !.reg = R.reg] /\ Adv
Tol == RMax("1/10000000", RMul("10", s.th))
SolveOk(r) ==
  LET H == RegH(r.H, s.reg) IN
  /\ Ck("size", Len(r.sx) = s.n)
  /\ Ck("bounds", Within(r.sx, r.lo, r.hi))
  /\ Ck("partition", Partition(s.n, r.free, r.clamped))
  /\ Ck("minimizer", Kkt(H, r.q, r.lo, r.hi, r.sx, Tol))
  /\ Ck("roles", Roles(H, r.q, r.lo, r.hi, r.sx, r.free, r.clamped, Tol))
  /\ Ck("inverse", Inverse(H, r.free, r.inv, "1/100000"))
  /\ Ck("same as a new solver", VClose(r.sx, r.fresh, "1/100000"))
\* an argument of the wrong size is rejected and the stored solution kept
Rejected(r) == Ck("rejected", r.thrown /\ (s.sol.x = <<>> \/ Sol(r) = s.sol))
TSolve == Is("solve") /\ (IF R.bad = "none" THEN ~R.thrown /\ SolveOk(R) ELSE Rejected(R)) = TRUE
          /\ s' = [s EXCEPT !.sol = IF R.bad = "none" THEN Sol(R) ELSE s.sol] /\ Adv
TraceNext == TNew \/ TResize \/ TReg \/ TSolve
TraceSpec == TraceInit /\ [][TraceNext]_<<s, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
