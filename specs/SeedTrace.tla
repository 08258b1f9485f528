------------------------------- MODULE SeedTrace -------------------------------
(* Recorded programs: every output whose term was seen before, in this or in   *)
(* any other program, must be the same output, bit for bit.                    *)
EXTENDS Seed
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, ev: seq of [op, s, model, seed, way, mode, n, peak, prof, kept, res]]
VARIABLES m, l, memo
tv == <<g, slot, s, outs, hist, m, l, memo>>

TInit == Start /\ s = 0 /\ g = <<"start 1">> /\ m = 1 /\ l = 1 /\ memo = [x \in {} |-> ""]
Fail(e, what) == PrintT("@@FAIL " \o ToJson([model |-> Trace[m].m, line |-> l, clauses |-> {what}]))
\* the outputs of one event: term -> digest
Outs(e) ==
  LET k == e.s IN
  IF e.op = "new" /\ e.way = "ctor" THEN LET x == [NoSlot EXCEPT !.model = e.model, !.seed = e.seed] IN (InitTerm(Seeded(g, x), x) :> e.peak)
  ELSE IF e.op = "init" THEN (InitTerm(g, slot[k]) :> e.peak)
  ELSE IF e.op = "gen"
       THEN LET x0 == slot[k]
                g1 == IF x0.init THEN g ELSE AfterInit(g, x0)
                x == IF x0.init THEN x0 ELSE [x0 EXCEPT !.peak = InitTerm(g, x0)]
            IN (IF x0.init THEN <<>> ELSE (InitTerm(g, x0) :> e.peak))
               @@ (IF Determined(x0) THEN (GenTerm(g1, x) :> e.prof) ELSE <<>>)
  ELSE <<>>
Step(e) ==
  \/ e.op = "new" /\ New(e.s, e.model, e.seed, e.way, e.mode)
  \/ e.op = "init" /\ DoInit(e.s)
  \/ e.op = "gen" /\ Gen(e.s)
  \/ e.op = "noise" /\ Noise(e.n)
  \/ e.op = "ext" /\ Ext(e.seed)
Consume ==
  /\ m <= Len(Trace) /\ l <= Len(Trace[m].ev)
  /\ LET e == Trace[m].ev[l] o == Outs(e) IN
     /\ Step(e)
     /\ IF e.res # "ok" THEN Fail(e, "C11." \o e.res)
        ELSE IF \E t \in DOMAIN o \cap DOMAIN memo : o[t] # memo[t] THEN Fail(e, "C11.reproducible") ELSE TRUE
     /\ IF e.op = "new" /\ e.seed = "" /\ e.way # "ctor" /\ ~e.kept THEN Fail(e, "C11.untouched") ELSE TRUE
     /\ memo' = IF \E t \in DOMAIN o : t \notin DOMAIN memo THEN memo @@ o ELSE memo
  /\ l' = l + 1 /\ UNCHANGED <<m, hist>>
NextScript ==
  /\ m <= Len(Trace) /\ l > Len(Trace[m].ev)
  /\ m' = m + 1 /\ l' = 1 /\ slot' = [x \in Slots |-> NoSlot] /\ outs' = {} /\ s' = 0
  /\ g' = <<"start " \o ToString(m + 1)>> /\ UNCHANGED <<hist, memo>>
Done == m > Len(Trace) /\ UNCHANGED tv
TSpec == TInit /\ [][Consume \/ NextScript]_tv
Stat == m > Len(Trace) => PrintT("@@STAT " \o ToJson([terms |-> Cardinality(DOMAIN memo)]))
SumLen == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + F(i - 1) IN F(Len(Trace))
Consumed == TLCGet("distinct") = Len(Trace) + 1 + SumLen
===============================================================================
