---------------------------- MODULE SolverHistMC ----------------------------
(* A solve never reads memory of an earlier solve (or of an earlier size of the problem), whatever happened before:  *)
(* solves that are aborted at any step, edits between solves, rejected guesses.  Start forgets the predicted         *)
(* improvement; without that (Forget = FALSE) an iteration whose trials all fail would read it.                      *)
EXTENDS SolverHist
CONSTANTS MaxSolves, MaxEdits, Forget
VARIABLES run, age, ver, flag, pc, stale
vars == <<run, age, ver, flag, pc, stale>>
Cur == [run |-> run, ver |-> ver]
Init == run = 0 /\ ver = 0 /\ flag = FALSE /\ pc = "idle" /\ stale = FALSE /\ age = [c \in Cells |-> [run |-> 0, ver |-> 0]]
Fresh(c) == IF c = "size" THEN age[c].ver = ver ELSE age[c].run = run
Do(op, w) == /\ stale' = (stale \/ \E c \in Reads[op] : ~Fresh(c))
             /\ age' = [c \in Cells |-> IF c \in w THEN [run |-> run, ver |-> ver] ELSE age[c]]
Edit == pc = "idle" /\ ver < MaxEdits /\ ver' = ver + 1 /\ flag' = TRUE /\ UNCHANGED <<run, age, pc, stale>>
Begin == /\ pc = "idle" /\ run < MaxSolves /\ run' = run + 1 /\ pc' = "start" /\ flag' = FALSE /\ UNCHANGED <<ver, stale>>
         /\ age' = IF flag THEN [age EXCEPT !["size"] = [run |-> run + 1, ver |-> ver]] ELSE age
Start == pc = "start" /\ pc' = "derive" /\ Do("Start", Writes["Start"] \cup (IF Forget THEN {"improvement"} ELSE {})) /\ UNCHANGED <<run, ver, flag>>
Reject == pc = "start" /\ pc' = "idle" /\ UNCHANGED <<run, age, ver, flag, stale>>
Derive == pc = "derive" /\ pc' = "backward" /\ Do("Derive", Writes["Derive"]) /\ UNCHANGED <<run, ver, flag>>
Backward == pc = "backward" /\ pc' \in {"try", "backward"} /\ Do("Backward", Writes["Backward"]) /\ UNCHANGED <<run, ver, flag>>
\* a trial succeeds (then it may be taken or not), or every trial of the iteration fails
Try == pc = "try" /\ pc' \in {"take", "try", "stop"} /\ Do("Try", Writes["Try"]) /\ UNCHANGED <<run, ver, flag>>
Fail == pc = "try" /\ pc' = "stop" /\ UNCHANGED <<run, age, ver, flag, stale>>
Take == pc = "take" /\ pc' = "stop" /\ Do("Take", Writes["Take"]) /\ UNCHANGED <<run, ver, flag>>
Stop == pc = "stop" /\ pc' \in {"derive", "backward", "idle"} /\ Do("Stop", {}) /\ UNCHANGED <<run, ver, flag>>
Abort == pc \notin {"idle"} /\ pc' = "idle" /\ UNCHANGED <<run, age, ver, flag, stale>>
Next == Edit \/ Begin \/ Start \/ Reject \/ Derive \/ Backward \/ Try \/ Fail \/ Take \/ Stop \/ Abort
Spec == Init /\ [][Next]_vars
NeverStale == ~stale
=============================================================================
