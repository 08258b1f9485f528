------------------------------- MODULE LifeTrace -------------------------------
(* Recorded lives of real use cases: after every operation the days, their     *)
(* number, the time stamps and what was generated are those of Lifecycle.      *)
EXTENDS Lifecycle
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, w1, today, ev]
VARIABLES m, l
tv == <<u, hist, m, l>>
T == Trace[m]

After(e) ==
  CASE e.op = "new" -> AfterNew(e.a, e.b, Asked, T.today, SeriesLen)
    [] e.op = "start" -> [u EXCEPT !.ds = e.a]
    [] e.op = "end" -> [u EXCEPT !.de = e.b]
    [] e.op = "init" -> AfterInit(u, e.n, e.f, Asked, T.today, SeriesLen)
    [] e.op \in {"num", "index"} -> AfterProp(u, Asked, T.today, SeriesLen)
    [] e.op = "days" -> AfterDays(u, e.a, e.n, SeriesLen)
    [] OTHER -> u
Generates(e) == e.op \in {"rows", "flat", "cases", "par", "days"}
Wrong(e, v) ==
  IF v.dead THEN (IF e.res = "refused" THEN {} ELSE {"C12.refused"})
  ELSE IF Generates(e) /\ ~v.init THEN (IF e.res = "refused" THEN {} ELSE {"C12.nodays"})
  ELSE IF e.res # "ok" THEN {"C12." \o e.res}
  ELSE IF e.init # v.init THEN {"C12.init"}
  ELSE IF ~v.init THEN {}
  ELSE (IF e.first # v.first \/ e.count # v.nd THEN {"C12.days"} ELSE {})
       \cup (IF e.nd # v.nd THEN {"C12.num_days"} ELSE {})
       \cup (IF e.ifirst # (v.first - 1) * 1440 \/ e.ilen # v.nd * 1440 THEN {"C12.datetimeindex"} ELSE {})
       \cup (IF Generates(e) THEN UNION {IF r = Rows(T.w1, v) THEN {} ELSE {"C12.rows"} : r \in {e.rows[i] : i \in DOMAIN e.rows}} ELSE {})
       \cup (IF Generates(e) /\ Len(e.rows) # (IF e.op = "cases" THEN 2 ELSE 1) THEN {"C12.results"} ELSE {})

TInit == u = Nothing /\ hist = <<>> /\ m = 1 /\ l = 1
Consume ==
  /\ m <= Len(Trace) /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] v == After(e) w == Wrong(e, v) IN
     /\ IF w = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([model |-> T.m, line |-> l, clauses |-> w]))
     /\ u' = v
  /\ l' = l + 1 /\ UNCHANGED <<m, hist>>
NextTrace == m <= Len(Trace) /\ l > Len(T.ev) /\ m' = m + 1 /\ l' = 1 /\ u' = Nothing /\ UNCHANGED hist
TNext == Consume \/ NextTrace
TSpec == TInit /\ [][TNext]_tv
SumLen == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + F(i - 1) IN F(Len(Trace))
Consumed == TLCGet("distinct") = Len(Trace) + 1 + SumLen
===============================================================================
