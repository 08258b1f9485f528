-------------------------------- MODULE CliTrace --------------------------------
(* Recorded commands: what was simulated and written is what Cli says.           *)
EXTENDS Cli
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, c, res, sims, files: seq of [place, rows], year: seq, pys, extra]
VARIABLES m
tv == <<c, phase, done, outs, m>>
Written(t) == {t.files[i].place : i \in DOMAIN t.files}
PyIds(r) == {Inputs(r)[i].id : i \in {j \in 1..Completed(r) : Inputs(r)[j].kind = "py"}}
Wrong(t) ==
  LET r == t.c IN
  (IF t.extra # <<>> THEN {"C18.otherfiles"} ELSE {}) \cup
  (IF Rejected(r) THEN (IF t.res = "ok" THEN {"C18.accepted"} ELSE {}) \cup (IF t.sims # <<>> \/ t.files # <<>> \/ t.pys # <<>> THEN {"C18.beforerejected"} ELSE {})
   ELSE IF ~Feasible(r) THEN (IF t.res = "ok" THEN {"C18.infeasible"} ELSE {}) \cup (IF ~IsPrefix(t.sims, Sims(r)) THEN {"C18.simulations"} ELSE {})
   ELSE IF t.res # "ok" THEN {"C18." \o t.res}
   ELSE (IF t.sims # Sims(r) THEN {"C18.simulations"} ELSE {})
        \cup (IF {t.pys[i] : i \in DOMAIN t.pys} # PyIds(r) \/ Len(t.pys) # Cardinality(PyIds(r)) THEN {"C18.scripts"} ELSE {})
        \cup (IF Written(t) # Places(r) THEN {"C18.outputs"}
              ELSE IF MonthMode(r)
              THEN (IF t.files[1].rows # YearRows(r) \/ t.files[1].first # NewYear(r.years[1]) THEN {"C18.yearvalues"} ELSE {})
                   \cup (IF t.year # [i \in 1..YearLength(r.years[1]) |-> HourRow(YearRows(r)[i])] THEN {"C18.hourlyvalues"} ELSE {})
              ELSE IF \E i \in DOMAIN t.files : t.files[i].rows # Rows(r, Writer(r, t.files[i].place)) THEN {"C18.values"} ELSE {}))
TInit == m = 1 /\ c = 0 /\ phase = "" /\ done = <<>> /\ outs = <<>>
TNext == /\ m <= Len(Trace)
         /\ LET w == Wrong(Trace[m]) IN IF w = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([model |-> Trace[m].m, clauses |-> w]))
         /\ m' = m + 1 /\ UNCHANGED <<c, phase, done, outs>>
TSpec == TInit /\ [][TNext]_tv
Count(P(_)) == Cardinality({i \in DOMAIN Trace : P(Trace[i].c)})
Finished == m > Len(Trace) => PrintT("@@STAT " \o ToJson([rejected |-> Count(Rejected), completed |-> Count(Feasible), years |-> Cardinality({i \in DOMAIN Trace : Feasible(Trace[i].c) /\ MonthMode(Trace[i].c)})]))
===============================================================================
