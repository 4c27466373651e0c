--------------------------- MODULE SolverLoopGen ----------------------------
(* Behaviours of SolverLoop with an environment that prefers boundary values. *)
EXTENDS SolverLoop, TLC, Json, FiniteSets
CONSTANTS MaxOps, Emit
VARIABLES hist, bias
gvars == <<s, hist, bias>>
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
R(S, x) == RandomElement(S)
Log(op) == hist' = Append(hist, op)
Settings(x) == [kind |-> R({"ddp", "boxddp", "fddp", "boxfddp", "intro", "kkt", "ddp", "fddp", "intro"}, x),
   alphas |-> R({<<"1">>, <<"1", "1/2">>, <<"1", "1/2", "1/4">>, <<"1", "3/4", "1/8", "1/16">>, <<"1/2", "1/4">>}, x),
   thA |-> R({"1/8", "1/2", "1"}, x), thNeg |-> R({"0", "1/2", "2"}, x), thGrad |-> R({"0", "1/16"}, x),
   sdec |-> R({"1/2", "1/4", "1", "3/4"}, x), sinc |-> R({"1/4", "1/2", "1/16", "1/8"}, x), inc |-> R({"3/2", "2", "10"}, x), dec |-> R({"2", "4"}, x),
   rmin |-> R({"0", "1/1024", "1"}, x), rmax |-> R({"4", "64", "1048576"}, x), thStop |-> R({"1/16", "1"}, x),
   rho |-> R({"1/2", "3/4"}, x), thFeas |-> R({"0", "1/16", "1"}, x), zu |-> R(BOOLEAN, x), ncb |-> R({0, 1, 1, 2, 3}, x)]
KktFix(k) == IF k.kind = "kkt"
  THEN [k EXCEPT !.alphas = <<"1", "1/2", "1/4", "1/8", "1/16", "1/32", "1/64", "1/128", "1/256", "1/512">>, !.thGrad = "0.000000000001"] ELSE k
GNew == LET k == KktFix(Settings(hist)) IN /\ s' = New(k) /\ Log([op |-> "new", k |-> k]) /\ UNCHANGED bias
GSolve == \E max \in Pick(0..4), f \in Pick(BOOLEAN), r \in Pick({"nan", "nan", s.k.rmin, s.k.rmax, "1", "2", "3/8", "0"}) :
  /\ s' = Solve(s, s.next, max, f, f, r) /\ Log([op |-> "solve", max |-> max, feas |-> f, reg |-> r])
  /\ bias' = RandomElement({0, 0, 1, 2, 5, 9})
SV == {"0", "1/32", s.k.thStop, "2"}
E0 == {"0", "1/32", "1/16", "1/8", "1", "4", "-1/32", "-1/16", "-1", "-3"}
E1 == {"0", "1/16", "-1/16", "1", "-1", "-2", "-8", "-6", "4"}
H0 == {"0", "0", "1/2", "1", "2"}
GDir == IF R(0..9, hist) < bias THEN s' = DirFail(s) /\ Log([op |-> "dir", ok |-> FALSE]) /\ UNCHANGED bias
  ELSE \E e0 \in Pick(E0), e1 \in Pick(E1), sv \in Pick(SV), h \in Pick(H0) :
       /\ s' = DirOk(s, e0, e1, sv, "100", h)
       /\ Log([op |-> "dir", ok |-> TRUE, e0 |-> e0, e1 |-> e1, sv |-> sv, c0 |-> "100", h0 |-> h]) /\ UNCHANGED bias
\* cost changes around the thresholds of this trial
DVs(ex) == {RMul(s.k.thA, ex), RAdd(RMul(s.k.thA, ex), "1/64"), RSub(RMul(s.k.thA, ex), "1/64"), "0", "1/64", "-1/64", "9", "-9",
        RMul(s.k.thNeg, ex), RAdd(RMul(s.k.thNeg, ex), "1/64"), RSub(RMul(s.k.thNeg, ex), "1/64")}
GTry == IF R(0..11, hist) < bias - 3 \/ R(0..7, hist) = 0 THEN s' = TryFail(s) /\ Log([op |-> "try", ok |-> FALSE]) /\ UNCHANGED bias
  ELSE \E e0 \in Pick(E0), e1 \in Pick(E1), h \in Pick(H0) :
       LET t == Trial(s, "0", e0, e1, h)
           dphi == IF Intro(s.k) THEN {RSub(RAdd(RMul(s.k.thA, t.dPhiexp), x), t.dPhi) : x \in {"0", "1/64", "-1/64"}} ELSE {} IN
       \E dv \in Pick(DVs(t.dVexp) \cup dphi) :
       /\ s' = TryOk(s, dv, e0, e1, h) /\ Log([op |-> "try", ok |-> TRUE, dv |-> dv, e0 |-> e0, e1 |-> e1, h |-> h]) /\ UNCHANGED bias
GCb == s' = Callback(s) /\ Log([op |-> "cb"]) /\ UNCHANGED bias
GRet == s' = [s EXCEPT !.pc = "idle"] /\ Log([op |-> "ret"]) /\ UNCHANGED bias
GInit == s = New(KktFix(Settings(<<>>))) /\ hist = <<[op |-> "new", k |-> s.k]>> /\ bias = 0
RNext == Len(hist) < MaxOps /\
   CASE s.pc = "idle" -> IF R(0..3, hist) = 0 THEN GNew ELSE GSolve [] s.pc = "dir" -> GDir [] s.pc = "try" -> GTry [] s.pc = "cb" -> GCb [] s.pc = "ret" -> GRet
RSpec == GInit /\ [][RNext]_gvars
Done == Emit /\ Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
BasicInv == FeasHonest /\ SuccessSound /\ BudgetKept

\* exhaustive exploration: few values, every kind, every outcome
CONSTANT MKinds
Small(kind) == [kind |-> kind, alphas |-> <<"1", "1/2">>, thA |-> "1/2", thNeg |-> "2", thGrad |-> "0", sdec |-> "1/2", sinc |-> "1/2",
   inc |-> "2", dec |-> "2", rmin |-> "1", rmax |-> "4", thStop |-> "1", rho |-> "1/2", thFeas |-> "0", zu |-> TRUE, ncb |-> 1]
MInit == \E kd \in MKinds : s = New(Small(kd)) /\ hist = <<>> /\ bias = 0
MStart == s.pc = "idle" /\ \E max \in 0..2, f \in BOOLEAN, r \in {"nan", "2", "4"} : s' = [Solve(s, 1, max, f, f, r) EXCEPT !.next = 1, !.cur = 0]
MDir == /\ s.pc = "dir"
        /\ \/ s' = DirFail(s)
           \/ \E e0 \in {"0", "2", "-2"}, sv \in {"0", "2"}, h \in (IF Intro(s.k) THEN {"0", "1"} ELSE {"0"}) : s' = DirOk(s, e0, "0", sv, "0", h)
MTry == /\ s.pc = "try"
        /\ \/ s' = TryFail(s)
           \/ \E dv \in {"-5", "0", "2"}, e0 \in (IF FDDPRule(s.k) \/ Intro(s.k) THEN {"0", "2", "-2"} ELSE {"0"}), h \in (IF Intro(s.k) THEN {"0", "1"} ELSE {"0"}) :
                 s' = TryOk(s, dv, e0, "0", h)
MCb == s.pc = "cb" /\ s' = Callback(s)
MRet == s.pc = "ret" /\ s' = [s EXCEPT !.pc = "done"]
MCNext == (MStart \/ MDir \/ MTry \/ MCb \/ MRet) /\ UNCHANGED <<hist, bias>>
MCSpec == MInit /\ [][MCNext]_gvars /\ WF_gvars(MCNext)
Ends == (s.pc = "dir") ~> (s.pc = "ret")
\* a trial that does not satisfy the rule is never taken (re-stated independently of TryOk)
Rule(t) == IF RLe("0", t.dVexp) THEN RLt(RMul(t.k.thA, t.dVexp), t.dV) \/ RLt(RAbs(t.d0), t.k.thGrad) \/ (DDPRule(t.k) /\ ~s.feas)
           ELSE FDDPRule(t.k) /\ ~s.feas /\ RLt(RMul(t.k.thNeg, t.dVexp), t.dV)
TakenOnlyByRule == [][s.pc = "try" /\ s'.cur # s.cur /\ ~KKT(s.k) /\ ~Intro(s.k) => Rule(s')]_s
View == [s EXCEPT !.cost = "0", !.cur = 0, !.next = 0, !.merit = "0"]
=============================================================================
