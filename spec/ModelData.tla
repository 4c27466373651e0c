----------------------------- MODULE ModelData ------------------------------
(***************************************************************************)
(* Models and data objects.  A model has parameters and limits; a data     *)
(* object belongs to a model and has no memory of its own: an evaluation   *)
(* is a function of the model's current parameters and the inputs, and     *)
(* changes neither any model nor any other data.                           *)
(***************************************************************************)
CONSTANT None
VARIABLES models, \* model -> its parameters and limits
          datas,  \* data -> the model it was made for
          res     \* data -> what its last evaluation returned (the parameters and inputs it is determined by)
vars == <<models, datas, res>>
Put(f, k, v) == [e \in DOMAIN f \cup {k} |-> IF e = k THEN v ELSE f[e]]
Init == /\ models = [m \in {} |-> None] /\ datas = [d \in {} |-> None] /\ res = [d \in {} |-> None]
\* a new model in place of m; the data of the model it replaces are gone
Drop(m) == {d \in DOMAIN datas : datas[d] # m}
New(m, p) == /\ models' = Put(models, m, p)
             /\ datas' = [d \in Drop(m) |-> datas[d]] /\ res' = [d \in Drop(m) |-> res[d]]
Copy(m, n) == m \in DOMAIN models /\ m # n /\ New(n, models[m])
Change(m, p) == /\ m \in DOMAIN models /\ models' = [models EXCEPT ![m] = p] /\ UNCHANGED <<datas, res>>
Create(d, m) == /\ m \in DOMAIN models /\ datas' = Put(datas, d, m) /\ res' = Put(res, d, None) /\ UNCHANGED models
Eval(d, in) == /\ d \in DOMAIN datas /\ res' = [res EXCEPT ![d] = <<models[datas[d]], in>>] /\ UNCHANGED <<models, datas>>

Owned == DOMAIN res = DOMAIN datas /\ \A d \in DOMAIN datas : datas[d] \in DOMAIN models
\* an evaluation reflects the parameters current at that time, whatever happened before
Fresh == [][\A d \in DOMAIN datas : (d \in DOMAIN res /\ d \in DOMAIN res' /\ res'[d] # res[d] /\ res'[d] # None) => res'[d][1] = models[datas[d]]]_vars
\* at most one model changes at a time, and copies are independent
Independent == [][\A m, n \in DOMAIN models : (m # n /\ models'[m] # models[m]) => models'[n] = models[n]]_vars
=============================================================================
