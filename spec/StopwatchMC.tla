----------------------------- MODULE StopwatchMC -----------------------------
(* Every history up to a bound; the figures of a timer are those defined independently from the history of what happened. *)
EXTENDS Stopwatch
CONSTANT MaxOps
VARIABLES sw, evs, k \* the stopwatch; per timer the parts and laps since the last reset; number of operations
Names == {"a", "b"}
Ops == {[op |-> o, name |-> n] : o \in {"start", "stop", "pause", "mstart", "mstop", "reset"}, n \in Names} \cup {[op |-> "on"], [op |-> "off"], [op |-> "resetall"], [op |-> "mode", m |-> "cpu"], [op |-> "mode", m |-> "none"]} \cup {[op |-> "prof", v |-> b] : b \in BOOLEAN}
\* independent account: open part start and closed parts
Acc == [open |-> -1, parts |-> <<>>, laps |-> <<>>]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Eff(o) == IF ~sw.on \/ (o.op \in {"mstart", "mstop"} /\ ~sw.prof) \/ sw.mode = "none" THEN "nothing" ELSE IF o.op \in {"start", "mstart"} THEN "start" ELSE IF o.op \in {"stop", "mstop"} THEN "stop" ELSE o.op
Upd(a, e) == IF e = "start" THEN [a EXCEPT !.open = Clock(sw)]
             ELSE IF a.open < 0 THEN a
             ELSE IF e = "pause" THEN [a EXCEPT !.parts = Append(@, Clock(sw) - a.open), !.open = -1]
             ELSE IF e = "stop" THEN [open |-> -1, parts |-> <<>>, laps |-> Append(a.laps, Append(a.parts, Clock(sw) - a.open))] ELSE a
MCInit == sw = New("real") /\ now = [real |-> 100, cpu |-> 7] /\ evs = [n \in Names |-> Acc] /\ k = 0
Tick == \E d \in {1, 3} : now' = [real |-> now.real + d, cpu |-> now.cpu + 1] /\ UNCHANGED <<sw, evs>>
Op == \E o \in Ops : /\ (Sensible(sw, o)) = TRUE
                     /\ sw' = Do(sw, o).s /\ UNCHANGED now
                     /\ evs' = IF o.op \in {"reset", "resetall"} /\ sw.on THEN [n \in Names |-> IF (o.op = "resetall" \/ o.name = n) /\ Known(sw, n) THEN Acc ELSE evs[n]]
                               ELSE IF "name" \in DOMAIN o THEN [evs EXCEPT ![o.name] = Upd(@, Eff(o))] ELSE evs
MCNext == k < MaxOps /\ k' = k + 1 /\ (Tick \/ Op)
MCSpec == MCInit /\ [][MCNext]_<<sw, now, evs, k>>
Laps(n) == [i \in 1..Len(evs[n].laps) |-> Sum(evs[n].laps[i])]
Figures == \A n \in DOMAIN sw.t : LET r == sw.t[n] L == Laps(n) V == {L[i] : i \in 1..Len(L)} IN
  /\ r.n = Len(L) /\ r.total = Sum(L) + Sum(evs[n].parts)
  /\ (L # <<>> => r.last = L[Len(L)] /\ r.min \in V /\ r.max \in V /\ \A v \in V : r.min <= v /\ v <= r.max)
Order == \A n \in DOMAIN sw.t : LET r == sw.t[n] IN (r.n > 0 /\ ~r.paused) => r.min * r.n <= r.total /\ r.total <= r.max * r.n
Untouched == \A n \in Names : ~Known(sw, n) => evs[n] = Acc
OffRecordsNothing == [][(~sw.on /\ sw'.on = sw.on) => sw'.t = sw.t]_<<sw, now, evs, k>>
=============================================================================
