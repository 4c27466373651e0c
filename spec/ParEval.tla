------------------------------ MODULE ParEval -------------------------------
(* The parallel evaluation of a shooting problem: W workers take nodes from  *)
(* a common pool; evaluating a node reads its inputs and writes the node's   *)
(* own data in two separate steps (a node's data is its own); the terminal   *)
(* node and the sum of the costs come after all the nodes.  Whatever the     *)
(* interleaving, every node is evaluated exactly once with its own inputs    *)
(* and the result is the sum of the node costs.                              *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS T, W
VARIABLES pool,      \* nodes nobody has taken
          work,      \* worker -> node it is evaluating, with the inputs it read; 0 when idle
          data,      \* node -> cost written, 0 when never
          count,     \* node -> number of evaluations
          phase, total
vars == <<pool, work, data, count, phase, total>>
Nodes == 1..T
Workers == 1..W
Input(i) == 10 * i
Cost(i) == i + Input(i)
RECURSIVE SumData(_)
SumData(n) == IF n = 0 THEN 0 ELSE data[n] + SumData(n - 1)
RECURSIVE SumCost(_)
SumCost(n) == IF n = 0 THEN 0 ELSE Cost(n) + SumCost(n - 1)

Init == /\ pool = Nodes /\ work = [w \in Workers |-> 0] /\ data = [i \in 1..(T + 1) |-> 0]
        /\ count = [i \in 1..(T + 1) |-> 0] /\ phase = "nodes" /\ total = 0
Take(w) == /\ phase = "nodes" /\ work[w] = 0
           /\ \E i \in pool : pool' = pool \ {i} /\ work' = [work EXCEPT ![w] = i]
           /\ UNCHANGED <<data, count, phase, total>>
Finish(w) == /\ work[w] # 0
             /\ data' = [data EXCEPT ![work[w]] = Cost(work[w])]
             /\ count' = [count EXCEPT ![work[w]] = @ + 1]
             /\ work' = [work EXCEPT ![w] = 0]
             /\ UNCHANGED <<pool, phase, total>>
Join == /\ phase = "nodes" /\ pool = {} /\ \A w \in Workers : work[w] = 0
        /\ phase' = "terminal" /\ UNCHANGED <<pool, work, data, count, total>>
Terminal == /\ phase = "terminal"
            /\ data' = [data EXCEPT ![T + 1] = Cost(T + 1)] /\ count' = [count EXCEPT ![T + 1] = @ + 1]
            /\ phase' = "sum" /\ UNCHANGED <<pool, work, total>>
Reduce == /\ phase = "sum" /\ total' = SumData(T + 1) /\ phase' = "done" /\ UNCHANGED <<pool, work, data, count>>
Next == (\E w \in Workers : Take(w) \/ Finish(w)) \/ Join \/ Terminal \/ Reduce
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ExactlyOnce == /\ \A i \in 1..(T + 1) : count[i] <= 1
               /\ phase = "done" => \A i \in 1..(T + 1) : count[i] = 1
NoSharing == \A v, w \in Workers : v # w /\ work[v] # 0 => work[v] # work[w]
Result == phase = "done" => total = SumCost(T + 1)
Ends == <>(phase = "done")
=============================================================================
