---------------------------- MODULE ModelDataMC -----------------------------
EXTENDS ModelData, Naturals
CONSTANTS M, D, P, In
Next == \/ \E m \in M, p \in P : New(m, p) \/ Change(m, p)
        \/ \E m, n \in M : Copy(m, n)
        \/ \E d \in D, m \in M : Create(d, m)
        \/ \E d \in D, i \in In : Eval(d, i)
Spec == Init /\ [][Next]_vars
=============================================================================
