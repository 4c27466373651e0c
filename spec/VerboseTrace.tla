----------------------------- MODULE VerboseTrace -----------------------------
(* Recorded histories: R.in the operation, R.lines what was printed, R.os the callbacks afterwards. *)
EXTENDS Verbose, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
All(os) == (Ck("callbacks", {R.os[j].s : j \in 1..Len(R.os)} = DOMAIN os) /\ \A j \in 1..Len(R.os) : Ck(<<"configuration", R.os[j]>>, os[R.os[j].s] = [level |-> R.os[j].level, precision |-> R.os[j].precision])) = TRUE
Quiet(thrown) == (Ck("refused", R.thrown = thrown) /\ Ck("nothing printed", R.lines = <<>>)) = TRUE
TraceInit == vb = [s \in {} |-> 0] /\ out = <<>> /\ l = 1
TReset == Is("reset") /\ vb' = [s \in {} |-> 0] /\ out' = <<>> /\ Adv
TNew == Is("new") /\ Quiet(R.in.p < 0) /\ New(R.in.s, R.in.level, R.in.p) /\ All(vb') /\ Adv
TDefault == Is("default") /\ Quiet(FALSE) /\ Put(R.in.s, [Default EXCEPT !.level = IF R.in.p = 3 THEN 4 ELSE 2]) /\ out' = <<>> /\ All(vb') /\ Adv
TLevel == Is("level") /\ Quiet(FALSE) /\ SetLevel(R.in.s, R.in.level) /\ All(vb') /\ Adv
TPrec == Is("precision") /\ Quiet(R.in.p < 0) /\ SetPrecision(R.in.s, R.in.p) /\ All(vb') /\ Adv
Same(a, b) == ToString(a) = ToString(b)
TCall == /\ Is("call") /\ Call(R.in.s, R.in.iter, R.before.v)
         /\ (Ck("refused", ~R.thrown) /\ Ck(<<"printed", R.lines, out'>>, R.lines = out') /\ Ck("solver changed", Same(R.before, R.after))) = TRUE
         /\ All(vb') /\ Adv
\* every call of a solve prints the iteration it is made for, and the solve does what it does without the callback
TSolve == /\ Is("solve") /\ UNCHANGED <<vb, out>>
          /\ (Ck("refused", ~R.thrown) /\ Ck("nothing printed", R.lines = <<>>)
              /\ (\A k \in 1..Len(R.calls) : LET c == R.calls[k] want == Lines(vb[R.in.s], c.before.iter, c.before.v) IN
                    /\ Ck("iteration", c.before.iter = k - 1)
                    /\ Ck(<<"printed", c.lines, want>>, c.lines = want)
                    /\ Ck("solver changed", Same(c.before, c.after)))
              /\ Ck("result", R.ra = R.rb /\ Same(R.a, R.b))) = TRUE
          /\ All(vb') /\ Adv
TraceNext == TReset \/ TNew \/ TDefault \/ TLevel \/ TPrec \/ TCall \/ TSolve
TraceSpec == TraceInit /\ [][TraceNext]_<<vb, out, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
=============================================================================
