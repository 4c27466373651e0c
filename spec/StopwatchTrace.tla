---------------------------- MODULE StopwatchTrace ---------------------------
(* Recorded histories of the real stopwatches: R.in the operation, R.thrown, R.m the figures of every timer name afterwards, R.rows what a report printed. *)
EXTENDS Stopwatch, BigRat, Json, IOUtils
VARIABLES sws, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
Secs(us) == RDiv(RInt(us), "1000000")
Eq(a, us) == RIsNum(a) /\ RLe(RAbs(RSub(a, Secs(us))), "1/100000000")
Figures(m, s) ==
  \A j \in 1..Len(m) : LET f == m[j] IN
    /\ Ck("timers known", f.ex = Known(s, f.name))
    /\ Ck("unknown timers are errors", f.err = ~f.ex)
    /\ IF ~f.ex THEN TRUE ELSE LET r == s.t[f.name] IN
       /\ Ck("total", Eq(f.total, r.total))
       /\ (IF r.n = 0 THEN TRUE
           ELSE /\ Ck("average", RIsNum(f.avg) /\ RLe(RAbs(RSub(RMul(f.avg, RInt(r.n)), Secs(r.total))), "1/100000000"))
                /\ Ck("minimum", Eq(f.min, r.min)) /\ Ck("maximum", Eq(f.max, r.max))
                /\ Ck("last", IF r.paused THEN TRUE ELSE Eq(f.last, r.last)))
RECURSIVE Pow10(_)
Pow10(p) == IF p = 0 THEN 1 ELSE 10 * Pow10(p - 1)
Shown(a, us, p) == RIsNum(a) /\ RLe(RAbs(RSub(a, RDiv(RInt(us), "1000"))), RAdd("1/100000", RDiv("1/2", RInt(Pow10(p)))))
Row(w, s, p) ==
  /\ Ck("reported name", Known(s, w.name))
  /\ LET r == s.t[w.name] IN
     /\ Ck("reported count", w.n = r.n) /\ Ck("reported total", Shown(w.total, r.total, p))
     /\ (IF r.n = 0 THEN TRUE
         ELSE Ck("reported figures", /\ Shown(w.min, r.min, p) /\ Shown(w.max, r.max, p) /\ (IF r.paused THEN TRUE ELSE Shown(w.last, r.last, p))
                                     /\ RIsNum(w.avg) /\ RLe(RAbs(RSub(w.avg, RDiv(RDiv(RInt(r.total), "1000"), RInt(r.n)))), RAdd("1/100000", RDiv("1/2", RInt(Pow10(p)))))))
TraceInit == sws = [i \in 0..1 |-> New("real")] /\ now = [real |-> 0, cpu |-> 1000] /\ l = 1
TTick == Is("tick") /\ now' = [real |-> now.real + R.in.d, cpu |-> now.cpu + R.in.c] /\ UNCHANGED sws /\ Adv
TBegin == Is("begin") /\ sws' = [i \in 0..1 |-> New("real")] /\ now' = [real |-> 0, cpu |-> 1000] /\ Adv
TNew == Is("new") /\ sws' = [sws EXCEPT ![0] = New(R.in.m)] /\ Figures(R.m, sws'[0]) = TRUE /\ UNCHANGED now /\ Adv
\* a start that finds no clock may or may not have made the timer known
Made(s, o, f) == \E j \in 1..Len(f) : f[j].name = o /\ f[j].ex
TDo ==
  /\ l <= Len(Trace) /\ R.op \notin {"tick", "new", "begin"}
  /\ LET o == R.in s == sws[o.i] d == Do(s, o)
         nm == IF o.op \in {"wstart", "wstop"} THEN s.w[o.id] ELSE o.name
         t == IF d.err /\ o.op \in {"start", "mstart", "wstart"} /\ Made(s, nm, R.m) /\ ~Known(s, nm) THEN Set(s, nm, Timer) ELSE d.s
     IN /\ Ck("error exactly when", R.thrown = d.err) = TRUE
        /\ sws' = [sws EXCEPT ![o.i] = t]
        /\ (IF o.op = "report" THEN (IF s.on /\ ~d.err THEN Ck("one row", Len(R.rows) = 1) /\ Ck("the row of that timer", R.rows[1].name = o.name) ELSE Ck("no row", R.rows = <<>>)) ELSE TRUE) = TRUE
        /\ (IF o.op = "reportall"
            THEN IF s.on THEN Ck("rows of the measured timers", Len(R.rows) = Cardinality({R.rows[j].name : j \in 1..Len(R.rows)}) /\ {R.rows[j].name : j \in 1..Len(R.rows)} = {n \in DOMAIN s.t : s.t[n].n > 0}) ELSE Ck("no row", R.rows = <<>>)
            ELSE TRUE) = TRUE
        /\ (\A j \in 1..Len(R.rows) : Row(R.rows[j], s, o.p)) = TRUE
        /\ (IF o.op = "sofar" /\ ~d.err /\ s.t[o.name].ph = "run" THEN Ck("time so far", Eq(R.sofar, Clock(s) - s.t[o.name].at)) ELSE TRUE) = TRUE
  /\ Figures(R.m, sws'[R.in.i]) = TRUE
  /\ UNCHANGED now /\ Adv
TraceNext == TTick \/ TBegin \/ TNew \/ TDo
TraceSpec == TraceInit /\ [][TraceNext]_<<sws, now, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
