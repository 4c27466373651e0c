------------------------------ MODULE Shooting ------------------------------
(***************************************************************************)
(* A shooting problem as its user sees it: T running nodes and a terminal  *)
(* node, each with a model and a data object, an initial state and a flag  *)
(* telling that some node was edited.  Models are numbers; what matters of *)
(* a model is its kind (a data object serves the models of the kind it was *)
(* created for), the sizes of its state and the size of its control.       *)
(* Data objects are numbers; owner[d] is the model that created d.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots        \* names of the problems a history deals with

\* kind, state size, tangent size, control size of each model
Table == << [kind |-> 1, nx |-> 2, ndx |-> 2, nu |-> 1],
            [kind |-> 1, nx |-> 2, ndx |-> 2, nu |-> 1],
            [kind |-> 2, nx |-> 2, ndx |-> 2, nu |-> 2],
            [kind |-> 3, nx |-> 2, ndx |-> 2, nu |-> 0],
            [kind |-> 4, nx |-> 3, ndx |-> 2, nu |-> 1],    \* another state
            [kind |-> 5, nx |-> 2, ndx |-> 1, nu |-> 1] >>  \* another tangent space
Models == 1..Len(Table)
Kind(m) == Table[m].kind

VARIABLES probs,       \* slot -> problem or None
          owner        \* data -> the model that created it (a function over the data known so far)

vars == <<probs, owner>>
None == [T |-> 0]
IsProblem(p) == p.T > 0

Init == /\ probs = [s \in Slots |-> None]
        /\ owner = [d \in {} |-> 0]

Known == DOMAIN owner
CheckData(m, d) == Kind(owner[d]) = Kind(m)
Fits(m, nx, ndx) == Table[m].nx = nx /\ Table[m].ndx = ndx
AllFit(ms, nx, ndx) == \A i \in 1..Len(ms) : Fits(ms[i], nx, ndx)
Extend(f, ds, ms) == [d \in DOMAIN f \cup {ds[i] : i \in 1..Len(ds)} |->
                        IF d \in DOMAIN f THEN f[d] ELSE ms[CHOOSE i \in 1..Len(ds) : ds[i] = d]]
Fresh(ds) == /\ \A i \in 1..Len(ds) : ds[i] \notin Known
             /\ \A i, j \in 1..Len(ds) : i # j => ds[i] # ds[j]

----------------------------------------------------------------------------
(* The operations.  Each has a guard; a rejected one changes nothing.      *)

NewData(m, d) == /\ d \notin Known
                 /\ owner' = Extend(owner, <<d>>, <<m>>)
                 /\ UNCHANGED probs

CreateOk(ms, tm, x0) == /\ Len(x0) = Table[ms[1]].nx
                        /\ AllFit(ms, Table[ms[1]].nx, Table[ms[1]].ndx)
                        /\ Fits(tm, Table[ms[1]].nx, Table[ms[1]].ndx)
Create(p, ms, tm, x0, ds, td) ==
  /\ CreateOk(ms, tm, x0)
  /\ Len(ds) = Len(ms) /\ Fresh(ds \o <<td>>)
  /\ owner' = Extend(owner, ds \o <<td>>, ms \o <<tm>>)
  /\ probs' = [probs EXCEPT ![p] = [T |-> Len(ms), x0 |-> x0, rm |-> ms, rd |-> ds, tm |-> tm, td |-> td,
                                    nx |-> Table[ms[1]].nx, ndx |-> Table[ms[1]].ndx, upd |-> FALSE]]

CreateWithOk(ms, tm, x0, ds, td) == /\ CreateOk(ms, tm, x0)
                                    /\ Len(ds) = Len(ms)
                                    /\ \A i \in 1..Len(ms) : CheckData(ms[i], ds[i])
                                    /\ CheckData(tm, td)
CreateWith(p, ms, tm, x0, ds, td) ==
  /\ CreateWithOk(ms, tm, x0, ds, td)
  /\ probs' = [probs EXCEPT ![p] = [T |-> Len(ms), x0 |-> x0, rm |-> ms, rd |-> ds, tm |-> tm, td |-> td,
                                    nx |-> Table[ms[1]].nx, ndx |-> Table[ms[1]].ndx, upd |-> FALSE]]
  /\ UNCHANGED owner

ModelOk(p, m) == Fits(m, probs[p].nx, probs[p].ndx)
Shift(s, e) == Tail(s) \o <<e>>

Append0(p, m, d) == probs' = [probs EXCEPT ![p].rm = Shift(@, m), ![p].rd = Shift(@, d), ![p].upd = TRUE]
AppendModel(p, m, d) == /\ ModelOk(p, m) /\ Fresh(<<d>>)
                        /\ Append0(p, m, d)
                        /\ owner' = Extend(owner, <<d>>, <<m>>)
AppendDataOk(p, m, d) == ModelOk(p, m) /\ CheckData(m, d)
AppendData(p, m, d) == AppendDataOk(p, m, d) /\ Append0(p, m, d) /\ UNCHANGED owner

\* node i of 0..T; T is the terminal one
Put(p, i, m, d) == probs' = IF i = probs[p].T
                            THEN [probs EXCEPT ![p].tm = m, ![p].td = d, ![p].upd = TRUE]
                            ELSE [probs EXCEPT ![p].rm[i + 1] = m, ![p].rd[i + 1] = d, ![p].upd = TRUE]
UpdateModelOk(p, i, m) == i \in 0..probs[p].T /\ ModelOk(p, m)
UpdateModel(p, i, m, d) == /\ UpdateModelOk(p, i, m) /\ Fresh(<<d>>)
                           /\ Put(p, i, m, d)
                           /\ owner' = Extend(owner, <<d>>, <<m>>)
UpdateNodeOk(p, i, m, d) == UpdateModelOk(p, i, m) /\ CheckData(m, d)
UpdateNode(p, i, m, d) == UpdateNodeOk(p, i, m, d) /\ Put(p, i, m, d) /\ UNCHANGED owner

SetRunningOk(p, ms) == AllFit(ms, probs[p].nx, probs[p].ndx)
SetRunning(p, ms, ds) ==
  /\ SetRunningOk(p, ms) /\ Len(ds) = Len(ms) /\ Fresh(ds)
  /\ probs' = [probs EXCEPT ![p].rm = ms, ![p].rd = ds, ![p].T = Len(ms), ![p].upd = TRUE]
  /\ owner' = Extend(owner, ds, ms)

SetTerminal(p, m, d) == UpdateModel(p, probs[p].T, m, d)

SetX0Ok(p, x0) == Len(x0) = probs[p].nx
SetX0(p, x0) == /\ SetX0Ok(p, x0)
                /\ probs' = [probs EXCEPT ![p].x0 = x0]
                /\ UNCHANGED owner

IsUpdated(p, ret) == /\ ret = probs[p].upd
                     /\ probs' = [probs EXCEPT ![p].upd = FALSE]
                     /\ UNCHANGED owner

Copy(p, q) == /\ probs' = [probs EXCEPT ![q] = [probs[p] EXCEPT !.upd = FALSE]]
              /\ UNCHANGED owner

----------------------------------------------------------------------------
(* Evaluation.  The values of the models are part of their definition; the *)
(* calls an evaluation makes are recorded as [k, m, d, x, u].              *)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(s) == SumTo(s, Len(s))
NextState(m, x, u) == [j \in 1..Len(x) |-> x[j] + m + j * Sum(u)]
NodeCost(m, x, u) == m + 2 * Sum(u) + Sum([j \in 1..Len(x) |-> j * x[j]])
TermCost(m, x) == 100 * m + Sum(x)
QuasiControl(m, x) == [j \in 1..Table[m].nu |-> m + j + Sum(x)]

LengthsOk(p, xs, us) == Len(xs) = probs[p].T + 1 /\ Len(us) = probs[p].T
TotalCost(p, xs, us) == Sum([i \in 1..probs[p].T |-> NodeCost(probs[p].rm[i], xs[i], us[i])])
                        + TermCost(probs[p].tm, xs[probs[p].T + 1])
EvalCalls(p, k, xs, us) ==     \* the calls of an evaluation, as a sequence; any order is allowed
  [i \in 1..probs[p].T |-> [k |-> k, m |-> probs[p].rm[i], d |-> probs[p].rd[i], x |-> xs[i], u |-> us[i]]]
  \o << [k |-> k \o "T", m |-> probs[p].tm, d |-> probs[p].td, x |-> xs[probs[p].T + 1], u |-> <<>>] >>
QuasiCalls(p, xs) ==
  [i \in 1..probs[p].T |-> [k |-> "quasi", m |-> probs[p].rm[i], d |-> probs[p].rd[i], x |-> xs[i], u |-> <<>>]]
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
RECURSIVE RollFrom(_, _, _, _)
RollFrom(p, us, x, i) == IF i > probs[p].T THEN <<x>>
                         ELSE <<x>> \o RollFrom(p, us, NextState(probs[p].rm[i], x, us[i]), i + 1)
Rollout(p, us) == RollFrom(p, us, probs[p].x0, 1)
QuasiStatic(p, xs) == [i \in 1..probs[p].T |-> QuasiControl(probs[p].rm[i], xs[i])]

----------------------------------------------------------------------------
(* What a user relies on.                                                  *)

Aligned == \A s \in Slots : IsProblem(probs[s]) =>
   LET q == probs[s] IN
   /\ Len(q.rm) = q.T /\ Len(q.rd) = q.T /\ Len(q.x0) = q.nx
   /\ \A i \in 1..q.T : q.rd[i] \in Known /\ CheckData(q.rm[i], q.rd[i]) /\ Fits(q.rm[i], q.nx, q.ndx)
   /\ q.td \in Known /\ CheckData(q.tm, q.td) /\ Fits(q.tm, q.nx, q.ndx)

\* an edit of one problem leaves the others alone, and changes at most one node or shifts the horizon
Isolated == [][\E s \in Slots : \A t \in Slots \ {s} : probs'[t] = probs[t]]_vars
Local == [][\A s \in Slots : IsProblem(probs[s]) /\ IsProblem(probs'[s]) =>
     LET a == probs[s]  b == probs'[s] IN
       \/ a.T # b.T
       \/ Cardinality({i \in 1..a.T : a.rd[i] # b.rd[i]}) + (IF a.td # b.td THEN 1 ELSE 0) <= 1
       \/ \A i \in 1..(a.T - 1) : b.rd[i] = a.rd[i + 1] /\ b.rm[i] = a.rm[i + 1]
       \/ \A i \in 1..a.T : b.rd[i] \notin DOMAIN owner \/ \E t \in Slots : IsProblem(probs[t]) /\ probs'[s] = [probs[t] EXCEPT !.upd = FALSE] ]_vars
NoLoss == [][\A d \in DOMAIN owner : d \in DOMAIN owner' /\ owner'[d] = owner[d]]_vars
=============================================================================
