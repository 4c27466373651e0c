----------------------------- MODULE StopwatchGen ----------------------------
(* Histories over a stopwatch of its own (0) and the library's profiler (1), with the clocks advanced between operations. *)
EXTENDS Stopwatch, Json
CONSTANTS MaxOps
VARIABLES hist, sws
One(v) == {TLCEval(v)}
R(S, x) == RandomElement(S)
Names == {"a", "b", "c"}
Plain == {"start", "start2", "start3", "stop", "stop2", "stop3", "pause", "pause2", "reset", "report", "sofar"}
Strip(k) == IF k \in {"start2", "start3"} THEN "start" ELSE IF k \in {"stop2", "stop3"} THEN "stop" ELSE IF k = "pause2" THEN "pause" ELSE IF k \in {"prof2", "prof3"} THEN "prof" ELSE k
Pick(x) ==
  LET k == R(Plain \cup {"watch", "wstart", "wstart2", "wstop", "wstop2", "mstart", "mstop", "resetall", "on", "on2", "off", "prof", "prof2", "prof3", "mode", "reportall", "tick", "tick2", "tick3", "tick4", "tick5", "new"}, x) IN
  TLCEval([op |-> Strip(k), i |-> R(0..1, x), name |-> R(Names, x), id |-> R(1..3, x), v |-> R(1..4, x) # 1, m |-> R({"real", "cpu", "real", "none"}, x), p |-> R(0..6, x), d |-> R({1, 17, 999, 250000, 1000001}, x), c |-> R({0, 1, 3000, 70000}, x), b |-> R(BOOLEAN, x)])
Mode0 == [op |-> "new", i |-> 0, m |-> "real"]
\* watchers exist before use; those made while off are used only after the timer exists through them
Usable(s, o) == /\ (o.op \in {"wstart", "wstop"} => o.id \in DOMAIN s.w)
                /\ (o.op \in {"watch", "wstart", "wstop"} => o.i = 1 \/ TRUE)
                /\ (o.op = "watch" => s.on)
                /\ (o.op \in {"mstart", "mstop", "mode"} => (o.op = "mode") # (o.i = 1))
                /\ (o.op = "new" => o.i = 0)
\* often: go on with a measurement that has been paused, or pause one that runs
Follow(s, o) ==
  LET paused == {n \in DOMAIN s.t : s.t[n].paused /\ s.t[n].ph # "run"} run == {n \in DOMAIN s.t : s.t[n].ph = "run"}
  IN IF o.op \in {"tick", "tick2", "tick3", "tick4", "tick5"} THEN o
     ELSE IF paused # {} THEN TLCEval([o EXCEPT !.op = R({"start", "start2", "start3", "reset"}, 0), !.name = R(paused, 0)])
     ELSE IF run # {} THEN TLCEval([o EXCEPT !.op = R({"pause", "pause2", "stop", "tick", "tick2"}, 0), !.name = R(run, 0)])
     ELSE o
GNext ==
  /\ Len(hist) < MaxOps
  /\ \E o0 \in One(Pick(0)), f \in One(R(1..2, 0)) : \E s \in One(sws[o0.i]) : \E o \in One(IF f = 1 THEN Follow(s, o0) ELSE o0) : \E op \in One(IF o.op \in {"start2", "start3"} THEN "start" ELSE IF o.op = "pause2" THEN "pause" ELSE IF o.op \in {"tick2", "tick3", "tick4", "tick5"} THEN "tick" ELSE IF o.op = "on2" THEN "on" ELSE o.op) : \E q \in One([o EXCEPT !.op = op]) :
       IF ~Usable(s, q) \/ ~Sensible(s, q) THEN UNCHANGED <<hist, sws, now>>
       ELSE /\ hist' = Append(hist, q)
            /\ now' = IF op = "tick" THEN [real |-> now.real + q.d, cpu |-> now.cpu + q.c] ELSE now
            /\ sws' = IF op = "tick" THEN sws ELSE IF op = "new" THEN [sws EXCEPT ![0] = New(q.m)] ELSE [sws EXCEPT ![q.i] = Do(s, q).s]
GSpec == hist = <<[op |-> "begin"]>> /\ sws = [i \in 0..1 |-> New("real")] /\ now = [real |-> 0, cpu |-> 1000] /\ [][GNext]_<<hist, sws, now>>
Done == Len(hist) = MaxOps => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
