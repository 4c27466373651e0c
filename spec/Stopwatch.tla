------------------------------ MODULE Stopwatch ------------------------------
(***************************************************************************)
(* The profiling stopwatch: named timers over a clock (elapsed or          *)
(* processor time, microseconds).  A measurement runs from start to stop;  *)
(* pauses split it into parts whose sum is its duration.  Turned off,      *)
(* nothing is recorded; watchers and profiler macros record only while the *)
(* profiler is enabled.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLE now \* the clocks [real, cpu]
Timer == [ph |-> "idle", at |-> 0, part |-> 0, paused |-> FALSE, n |-> 0, total |-> 0, min |-> 0, max |-> 0, last |-> 0]
New(mode) == [mode |-> mode, on |-> TRUE, prof |-> FALSE, t |-> <<>>, w |-> <<>>]
Known(s, name) == name \in DOMAIN s.t
Clock(s) == IF s.mode = "cpu" THEN now.cpu ELSE now.real
Set(s, name, r) == [s EXCEPT !.t = (name :> r) @@ @]
Get(s, name) == IF Known(s, name) THEN s.t[name] ELSE Timer
Begin(s, name) == Set(s, name, [Get(s, name) EXCEPT !.ph = "run", !.at = Clock(s)])
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Close(r, lap) == LET d == r.part + lap IN
  [r EXCEPT !.ph = "done", !.part = 0, !.paused = FALSE, !.n = @ + 1, !.total = @ + lap, !.last = d, !.max = IF r.n = 0 THEN d ELSE Max(@, d), !.min = IF r.n = 0 THEN d ELSE Min(@, d)]
End(s, name) == IF s.t[name].ph = "idle" THEN s ELSE Set(s, name, Close(s.t[name], Clock(s) - s.t[name].at))
Hold(s, name) == IF s.t[name].ph = "idle" THEN s ELSE LET r == s.t[name] lap == Clock(s) - r.at IN Set(s, name, [r EXCEPT !.ph = "done", !.part = @ + lap, !.paused = TRUE, !.total = @ + lap])
Clear(s, name) == Set(s, name, Timer)
\* every operation o on a stopwatch s: [s after, err]
Ok(s) == [s |-> s, err |-> FALSE]
Bad(s) == [s |-> s, err |-> TRUE]
NeedsClock(s) == s.mode = "none"
Do(s, o) ==
  CASE o.op = "start" -> IF ~s.on THEN Ok(s) ELSE IF NeedsClock(s) THEN Bad(s) ELSE Ok(Begin(s, o.name))
    [] o.op = "stop" -> IF ~s.on THEN Ok(s) ELSE IF NeedsClock(s) \/ ~Known(s, o.name) THEN Bad(s) ELSE Ok(End(s, o.name))
    [] o.op = "pause" -> IF ~s.on THEN Ok(s) ELSE IF NeedsClock(s) \/ ~Known(s, o.name) THEN Bad(s) ELSE Ok(Hold(s, o.name))
    [] o.op = "mstart" -> IF ~s.prof \/ ~s.on THEN Ok(s) ELSE IF NeedsClock(s) THEN Bad(s) ELSE Ok(Begin(s, o.name))
    [] o.op = "mstop" -> IF ~s.prof \/ ~s.on THEN Ok(s) ELSE IF NeedsClock(s) \/ ~Known(s, o.name) THEN Bad(s) ELSE Ok(End(s, o.name))
    [] o.op = "watch" -> Ok([(IF s.on /\ ~Known(s, o.name) THEN Set(s, o.name, Timer) ELSE s) EXCEPT !.w = (o.id :> o.name) @@ @])
    [] o.op = "wstart" -> IF ~s.prof \/ ~s.on THEN Ok(s) ELSE IF NeedsClock(s) THEN Bad(s) ELSE Ok(Begin(s, s.w[o.id]))
    [] o.op = "wstop" -> IF ~s.prof \/ ~s.on \/ ~Known(s, s.w[o.id]) THEN Ok(s) ELSE IF NeedsClock(s) THEN Bad(s) ELSE Ok(End(s, s.w[o.id]))
    [] o.op = "reset" -> IF ~s.on THEN Ok(s) ELSE IF ~Known(s, o.name) THEN Bad(s) ELSE Ok(Clear(s, o.name))
    [] o.op = "resetall" -> IF ~s.on THEN Ok(s) ELSE Ok([s EXCEPT !.t = [name \in DOMAIN s.t |-> Timer]])
    [] o.op = "on" -> Ok([s EXCEPT !.on = TRUE])
    [] o.op = "off" -> Ok([s EXCEPT !.on = FALSE])
    [] o.op = "prof" -> Ok([s EXCEPT !.prof = o.v])
    [] o.op = "mode" -> Ok([s EXCEPT !.mode = o.m])
    [] o.op \in {"report", "sofar"} -> IF o.op = "report" /\ ~s.on THEN Ok(s) ELSE IF ~Known(s, o.name) \/ (o.op = "sofar" /\ NeedsClock(s)) THEN Bad(s) ELSE Ok(s)
    [] OTHER -> Ok(s)
\* what a caller does: closes or pauses only running (or never started) measurements, and changes the clock between measurements
Running(s) == {name \in DOMAIN s.t : s.t[name].ph = "run" \/ s.t[name].paused}
Closable(s, name) == Known(s, name) => s.t[name].ph # "done"
Sensible(s, o) ==
  CASE o.op \in {"stop", "pause", "mstop"} -> Closable(s, o.name)
    [] o.op = "wstop" -> Closable(s, s.w[o.id])
    [] o.op = "mode" -> Running(s) = {}
    [] o.op = "sofar" -> ~s.on \/ (Known(s, o.name) => s.t[o.name].ph = "run")
    [] OTHER -> TRUE
=============================================================================
