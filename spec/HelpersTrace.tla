----------------------------- MODULE HelpersTrace -----------------------------
(* Recorded histories of the real helpers: R.in the operation, the rest what came out. *)
EXTENDS Helpers, Json, IOUtils
VARIABLES t, ns, l \* the table being written, nanoseconds since the timer started
Trace == ndJsonDeserialize(IOEnv.TRACE)
R == Trace[l]
Is(op) == l <= Len(Trace) /\ R.op = op
Ck(name, c) == IF c THEN TRUE ELSE PrintT(<<"CK", name>>) /\ FALSE
Adv == l' = l + 1
TraceInit == t = Opened(<<>>) /\ ns = "0" /\ l = 1
A == R.A
Eps == IF R.in.dflt THEN (IF R.in.f32 THEN "1/100000" ELSE "1/1000000000000") ELSE R.in.eps
PinvOk ==
  /\ Ck("shape", R.pr = R.in.c /\ R.pc = R.in.r)
  /\ \/ R.in.r = 0 \/ R.in.c = 0
     \/ /\ Ck("conditions", \/ Sparse(A) \/ Penrose(A, R.P, IF R.in.f32 THEN "1/20000" ELSE "1/1000000000000"))
        /\ Ck("inverted entries", ~Sparse(A) \/ LET X == SparseInverse(A, Eps) IN
              \A i \in 1..Len(X) : VClose(R.P[i], X[i], IF R.in.f32 THEN "1/50000" ELSE "1/10000000000000"))
TPinv == Is("pinv") /\ PinvOk = TRUE /\ UNCHANGED <<t, ns>> /\ Adv
PsdOk == /\ (Above(A, IF R.in.f32 THEN "1/200000" ELSE "9/10000000000") => Ck("accepts", R.psd))
         /\ (~Above(A, IF R.in.f32 THEN "1/50000" ELSE "11/10000000000") => Ck("rejects", ~R.psd))
TPsd == Is("psd") /\ PsdOk = TRUE /\ UNCHANGED <<t, ns>> /\ Adv
TVersion == /\ Is("version") /\ UNCHANGED <<t, ns>>
            /\ (/\ Ck("at least", R.at = AtLeast(R.in.have, R.in.need))
                /\ Ck("version text", R.text = VersionText(R.in.have, IF R.in.dflt THEN <<46>> ELSE R.in.sep))) = TRUE
            /\ Adv
TRaise == /\ Is("raise") /\ UNCHANGED <<t, ns>>
          /\ LET m == IF R.in.far THEN R.in.m \o <<32>> \o Number(R.in.k) ELSE R.in.m IN
             (Ck("message", R.msg = m) /\ Ck("file", R.file) /\ Ck("description", R.head /\ R.names /\ R.tail = m)) = TRUE
          /\ Adv
TTick == Is("tick") /\ ns' = RAdd(ns, RInt(R.in.ns)) /\ UNCHANGED t /\ Adv
TZero == (Is("treset") \/ Is("tnew")) /\ ns' = "0" /\ UNCHANGED t /\ Adv
TTime == /\ Is("time") /\ UNCHANGED <<t, ns>>
         /\ (/\ Ck("milliseconds", RClose(R.ms, RDiv(ns, "1000000"), "1/1000000000000") /\ R.ms2 = R.ms)
             /\ Ck("microseconds", RClose(R.us, RDiv(ns, "1000"), "1/1000000000000"))) = TRUE
         /\ Adv
TOpen == Is("open") /\ t' = Opened(IF R.in.dflt THEN <<44>> ELSE R.in.sep) /\ UNCHANGED ns /\ Adv
TPut == Is("put") /\ t' = Put(t, IF R.in.k = "int" THEN Number(R.in.n) ELSE Quoted(R.in.t)) /\ UNCHANGED ns /\ Adv
TRow == Is("row") /\ t' = Row(t) /\ UNCHANGED ns /\ Adv
TRead == (Is("close") \/ Is("flush")) /\ Ck("table", R.bytes = t.text) = TRUE /\ UNCHANGED <<t, ns>> /\ Adv
TraceNext == TPinv \/ TPsd \/ TVersion \/ TRaise \/ TTick \/ TZero \/ TTime \/ TOpen \/ TPut \/ TRow \/ TRead
TraceSpec == TraceInit /\ [][TraceNext]_<<t, ns, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
                 IF d - 1 = Len(Trace) THEN TRUE
                 ELSE PrintT("BAD line " \o ToString(d) \o ": no action of the specification explains " \o ToJson(Trace[d])) /\ FALSE
===============================================================================
