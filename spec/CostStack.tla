----------------------------- MODULE CostStack ------------------------------
(***************************************************************************)
(* A stack of weighted cost items.  The counters and the two name sets are *)
(* kept incrementally, as an implementation does; what a user relies on is *)
(* that they always equal what the contents say (Counters, Partition) and  *)
(* that an evaluation is the weighted sum over exactly the active items.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Names
\* residual dimension and control dimension of each item; the stack serves controls of size NU
NU == 2
NX == 2
Item == << [dim |-> 1, nu |-> 2], [dim |-> 3, nu |-> 2], [dim |-> 2, nu |-> 2], [dim |-> 2, nu |-> 1] >>
Ids == 1..Len(Item)

VARIABLES items,       \* name -> [id, w, act] or Absent
          nr, nrt,     \* residual dimension of the active items, of all items
          act, inact,  \* names of active and of inactive items
          datas        \* data -> the contents it was created for: name -> id (0: none)
vars == <<items, nr, nrt, act, inact, datas>>
Absent == [id |-> 0, w |-> 0, act |-> FALSE]
Has(n) == items[n].id # 0

Init == /\ items = [n \in Names |-> Absent] /\ nr = 0 /\ nrt = 0 /\ act = {} /\ inact = {}
        /\ datas = [d \in {} |-> <<>>]
Dim(i) == Item[i].dim

AddOk(i) == Item[i].nu = NU             \* otherwise an error is raised
Add(n, i, w, a) ==
  IF Has(n) THEN UNCHANGED vars
  ELSE /\ items' = [items EXCEPT ![n] = [id |-> i, w |-> w, act |-> a]]
       /\ nrt' = nrt + Dim(i)
       /\ IF a THEN nr' = nr + Dim(i) /\ act' = act \cup {n} /\ inact' = inact
               ELSE nr' = nr /\ act' = act /\ inact' = inact \cup {n}
       /\ UNCHANGED datas
Remove(n) ==
  IF ~Has(n) THEN UNCHANGED vars
  ELSE /\ items' = [items EXCEPT ![n] = Absent]
       /\ nrt' = nrt - Dim(items[n].id)
       /\ nr' = IF items[n].act THEN nr - Dim(items[n].id) ELSE nr
       /\ act' = act \ {n} /\ inact' = inact \ {n}
       /\ UNCHANGED datas
Toggle(n, a) ==
  IF ~Has(n) \/ items[n].act = a THEN UNCHANGED vars
  ELSE /\ items' = [items EXCEPT ![n].act = a]
       /\ nr' = IF a THEN nr + Dim(items[n].id) ELSE nr - Dim(items[n].id)
       /\ act' = IF a THEN act \cup {n} ELSE act \ {n}
       /\ inact' = IF a THEN inact \ {n} ELSE inact \cup {n}
       /\ UNCHANGED <<nrt, datas>>
Weight(n, w) == /\ Has(n)
                /\ items' = [items EXCEPT ![n].w = w]
                /\ UNCHANGED <<nr, nrt, act, inact, datas>>
Contents == [n \in Names |-> items[n].id]
CreateData(d) == /\ datas' = [e \in DOMAIN datas \cup {d} |-> IF e = d THEN Contents ELSE datas[e]]
                 /\ UNCHANGED <<items, nr, nrt, act, inact>>
Size(c) == Cardinality({n \in Names : c[n] # 0})
\* an evaluation with data made for other contents: rejected when the number of items differs
EvalDefined(d) == datas[d] = Contents \/ Size(datas[d]) # Size(Contents)
EvalOk(d) == datas[d] = Contents

----------------------------------------------------------------------------
(* The items' own values, part of their definition, at x (size NX) and u.  *)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(s) == SumTo(s, Len(s))
ICost(i, x, u) == i * Sum(x) + Sum(u) + 7 * i
\* the first kind leaves the evaluation without control to the library: as with a zero control
ZeroU == [j \in 1..NU |-> 0]
ICostT(i, x) == IF i = 1 THEN ICost(i, x, ZeroU) ELSE 3 * i - Sum(x)
ILx(i, x, u) == [j \in 1..NX |-> i + j * x[j] + Sum(u)]
ILu(i, x, u) == [j \in 1..NU |-> i * j + u[j] - x[1]]
ILxx(i, x, u) == [j \in 1..NX |-> [k \in 1..NX |-> i * (j + k) + x[1]]]
ILxu(i, x, u) == [j \in 1..NX |-> [k \in 1..NU |-> i + 2 * j - k + u[1]]]
ILuu(i, x, u) == [j \in 1..NU |-> [k \in 1..NU |-> i * (j * k) + u[1]]]
ILxT(i, x) == IF i = 1 THEN ILx(i, x, ZeroU) ELSE [j \in 1..NX |-> 5 * i + j + x[j]]
ILxxT(i, x) == IF i = 1 THEN ILxx(i, x, ZeroU) ELSE [j \in 1..NX |-> [k \in 1..NX |-> i - (j + k) + x[2]]]

\* weighted sums over the active items
RECURSIVE Over(_, _)
Over(S, f) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN items[n].w * f[n] + Over(S \ {n}, f)
Active == {n \in Names : Has(n) /\ items[n].act}
WCost(x, u) == Over(Active, [n \in Active |-> ICost(items[n].id, x, u)])
WCostT(x) == Over(Active, [n \in Active |-> ICostT(items[n].id, x)])
WV(F(_), len) == [j \in 1..len |-> Over(Active, [n \in Active |-> F(items[n].id)[j]])]
WM(F(_), r, c) == [j \in 1..r |-> [k \in 1..c |-> Over(Active, [n \in Active |-> F(items[n].id)[j][k]])]]
WLx(x, u) == WV(LAMBDA i : ILx(i, x, u), NX)
WLu(x, u) == WV(LAMBDA i : ILu(i, x, u), NU)
WLxx(x, u) == WM(LAMBDA i : ILxx(i, x, u), NX, NX)
WLxu(x, u) == WM(LAMBDA i : ILxu(i, x, u), NX, NU)
WLuu(x, u) == WM(LAMBDA i : ILuu(i, x, u), NU, NU)
WLxT(x) == WV(LAMBDA i : ILxT(i, x), NX)
WLxxT(x) == WM(LAMBDA i : ILxxT(i, x), NX, NX)

----------------------------------------------------------------------------
RECURSIVE DimOver(_)
DimOver(S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN Dim(items[n].id) + DimOver(S \ {n})
Counters == /\ nr = DimOver(Active)
            /\ nrt = DimOver({n \in Names : Has(n)})
Partition == /\ act = Active
             /\ inact = {n \in Names : Has(n) /\ ~items[n].act}
NoAlias == [][\E n \in Names : \A m \in Names \ {n} : items'[m] = items[m]]_vars
=============================================================================
