--------------------------- MODULE ConstraintStack --------------------------
(***************************************************************************)
(* A stack of inequality (g) and equality (h) constraints.  Counters and    *)
(* name sets are kept incrementally; they must always equal what the       *)
(* contents say, and an evaluation stacks exactly the active constraints   *)
(* (for a terminal node: those that depend on the state) in one order.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names
NU == 2
NX == 2
Item == << [g |-> 1, h |-> 0, nu |-> 2, T |-> TRUE], [g |-> 0, h |-> 1, nu |-> 2, T |-> TRUE], [g |-> 2, h |-> 1, nu |-> 2, T |-> TRUE],
           [g |-> 2, h |-> 0, nu |-> 2, T |-> FALSE], [g |-> 0, h |-> 2, nu |-> 2, T |-> FALSE], [g |-> 1, h |-> 0, nu |-> 1, T |-> TRUE] >>
Ids == 1..Len(Item)

VARIABLES items,              \* name -> [id, act, s] (s: shift of its bounds) or Absent
          ng, nh, ngT, nhT,   \* dimensions of the active constraints, running and terminal
          act, inact, datas
vars == <<items, ng, nh, ngT, nhT, act, inact, datas>>
Absent == [id |-> 0, act |-> FALSE, s |-> 0]
Has(n) == items[n].id # 0
Init == /\ items = [n \in Names |-> Absent] /\ ng = 0 /\ nh = 0 /\ ngT = 0 /\ nhT = 0
        /\ act = {} /\ inact = {} /\ datas = [d \in {} |-> <<>>]
Count(i, k) == /\ ng' = ng + k * Item[i].g /\ nh' = nh + k * Item[i].h
               /\ ngT' = ngT + (IF Item[i].T THEN k * Item[i].g ELSE 0)
               /\ nhT' = nhT + (IF Item[i].T THEN k * Item[i].h ELSE 0)
Same == UNCHANGED <<ng, nh, ngT, nhT>>
AddOk(i) == Item[i].nu = NU
Add(n, i, a) ==
  IF Has(n) THEN UNCHANGED vars
  ELSE /\ items' = [items EXCEPT ![n] = [id |-> i, act |-> a, s |-> 0]]
       /\ IF a THEN Count(i, 1) /\ act' = act \cup {n} /\ inact' = inact
               ELSE Same /\ act' = act /\ inact' = inact \cup {n}
       /\ UNCHANGED datas
Remove(n) ==
  IF ~Has(n) THEN UNCHANGED vars
  ELSE /\ items' = [items EXCEPT ![n] = Absent]
       /\ IF items[n].act THEN Count(items[n].id, -1) ELSE Same
       /\ act' = act \ {n} /\ inact' = inact \ {n} /\ UNCHANGED datas
Toggle(n, a) ==
  IF ~Has(n) \/ items[n].act = a THEN UNCHANGED vars
  ELSE /\ items' = [items EXCEPT ![n].act = a]
       /\ Count(items[n].id, IF a THEN 1 ELSE -1)
       /\ act' = IF a THEN act \cup {n} ELSE act \ {n}
       /\ inact' = IF a THEN inact \ {n} ELSE inact \cup {n}
       /\ UNCHANGED datas
Bounds(n, s) == /\ Has(n) /\ items' = [items EXCEPT ![n].s = s]
                /\ UNCHANGED <<ng, nh, ngT, nhT, act, inact, datas>>
Contents == [n \in Names |-> items[n].id]
CreateData(d) == /\ datas' = [e \in DOMAIN datas \cup {d} |-> IF e = d THEN Contents ELSE datas[e]]
                 /\ UNCHANGED <<items, ng, nh, ngT, nhT, act, inact>>
Size(c) == Cardinality({n \in Names : c[n] # 0})
EvalDefined(d) == datas[d] = Contents \/ Size(datas[d]) # Size(Contents)
EvalOk(d) == datas[d] = Contents

----------------------------------------------------------------------------
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(s) == SumTo(s, Len(s))
Fill(i, c, v, r, w) == [k \in 1..r |-> [j \in 1..w |-> 100 * i + c * k + 7 * j + v]]
\* the values of one constraint
Vals(i, s, x, u) ==
  [g |-> [k \in 1..Item[i].g |-> i * k + Sum(x) - Sum(u)], h |-> [k \in 1..Item[i].h |-> 10 * i + k + x[1] + u[1]],
   Gx |-> Fill(i, 1, x[1] + u[1], Item[i].g, NX), Gu |-> Fill(i, 2, u[1], Item[i].g, NU),
   Hx |-> Fill(i, 3, x[2], Item[i].h, NX), Hu |-> Fill(i, 4, Sum(u), Item[i].h, NU),
   lb |-> [k \in 1..Item[i].g |-> s - i - k], ub |-> [k \in 1..Item[i].g |-> s + i + 2 * k]]
\* the first two kinds leave the evaluation without control to the library: as with a zero control
ValsT(i, s, x) ==
  IF i <= 2 THEN LET v == Vals(i, s, x, [j \in 1..NU |-> 0]) IN [g |-> v.g, h |-> v.h, Gx |-> v.Gx, Hx |-> v.Hx, lb |-> v.lb, ub |-> v.ub] ELSE
  [g |-> [k \in 1..Item[i].g |-> 2 * i + k + x[2]], h |-> [k \in 1..Item[i].h |-> Sum(x) - i - k],
   Gx |-> Fill(i, 5, x[1], Item[i].g, NX), Hx |-> Fill(i, 6, x[2], Item[i].h, NX),
   lb |-> [k \in 1..Item[i].g |-> s - i - k], ub |-> [k \in 1..Item[i].g |-> s + i + 2 * k]]
Active == {n \in Names : Has(n) /\ items[n].act}
ActiveT == {n \in Active : Item[items[n].id].T}
Orders(S) == {o \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => o[i] # o[j]}
RECURSIVE Cat(_, _, _)
Cat(o, f, i) == IF i > Len(o) THEN <<>> ELSE f[o[i]] \o Cat(o, f, i + 1)
\* r lists the active constraints in order o
Stacked(r, o, x, u) == LET V(n) == Vals(items[n].id, items[n].s, x, u) IN
  /\ r.g = Cat(o, [n \in Active |-> V(n).g], 1) /\ r.h = Cat(o, [n \in Active |-> V(n).h], 1)
  /\ r.Gx = Cat(o, [n \in Active |-> V(n).Gx], 1) /\ r.Gu = Cat(o, [n \in Active |-> V(n).Gu], 1)
  /\ r.Hx = Cat(o, [n \in Active |-> V(n).Hx], 1) /\ r.Hu = Cat(o, [n \in Active |-> V(n).Hu], 1)
  /\ r.lb = Cat(o, [n \in Active |-> V(n).lb], 1) /\ r.ub = Cat(o, [n \in Active |-> V(n).ub], 1)
StackedT(r, o, x) == LET V(n) == ValsT(items[n].id, items[n].s, x) IN
  /\ r.g = Cat(o, [n \in Active |-> V(n).g], 1) /\ r.h = Cat(o, [n \in Active |-> V(n).h], 1)
  /\ r.Gx = Cat(o, [n \in Active |-> V(n).Gx], 1) /\ r.Hx = Cat(o, [n \in Active |-> V(n).Hx], 1)
  /\ r.lb = Cat(o, [n \in Active |-> V(n).lb], 1) /\ r.ub = Cat(o, [n \in Active |-> V(n).ub], 1)
EvalMatches(r, x, u) == \E o \in Orders(Active) : Stacked(r, o, x, u)
EvalTMatches(r, x) == \E o \in Orders(ActiveT) : StackedT(r, o, x)

----------------------------------------------------------------------------
RECURSIVE Dims(_, _)
Dims(S, f) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN f[items[n].id] + Dims(S \ {n}, f)
Counters == /\ ng = Dims(Active, [i \in Ids |-> Item[i].g]) /\ nh = Dims(Active, [i \in Ids |-> Item[i].h])
            /\ ngT = Dims(ActiveT, [i \in Ids |-> Item[i].g]) /\ nhT = Dims(ActiveT, [i \in Ids |-> Item[i].h])
Partition == /\ act = Active
             /\ inact = {n \in Names : Has(n) /\ ~items[n].act}
Range == ngT <= ng /\ nhT <= nh /\ ngT >= 0 /\ nhT >= 0
NoAlias == [][\E n \in Names : \A m \in Names \ {n} : items'[m] = items[m]]_vars
=============================================================================
