---------------------------- MODULE CommunityTrace ----------------------------
(* Trace validation of whole communities: every row of every recorded result   *)
(* must be one Community allows, in calendar order, and the days and single    *)
(* users of a result must not repeat each other.                               *)
EXTENDS CommunityRules, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [com, days, res, rows: results -> days -> runs, parts]
PROP == IOEnv.PROP
VARIABLES m, l        \* model, next day
vars == <<m, l>>

Mine(cl) == cl \in {"crash", "hang", "malformed"} \/ SubSeq(cl, 1, 3) = PROP
           \* parallel results must obey the sequential model as a whole
           \/ (PROP = "C10" /\ SubSeq(cl, 1, 3) \in {"C09", "C06"})
DayFails1(t, d) ==
  IF t.res # "ok" THEN {t.res}
  ELSE UNION {RowFails(t.com, t.rows[k][d + 1], d) : k \in 1..Len(t.rows)}
       \cup (IF d = t.days - 1
             THEN UNION {PartFails(t.com, t.rows[Len(t.rows)][t.days], t.parts[u], u) : u \in 1..Len(t.parts)}
                  \cup UNION {HistoryFails(t.com, t.rows[k]) : k \in 1..Len(t.rows)}
             ELSE {})
Init == m \in 1..Len(Trace) /\ l = 0
Consume ==
  /\ l < Trace[m].days
  /\ LET bad == {x \in DayFails1(Trace[m], l) : Mine(x)}
     IN IF bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([model |-> Trace[m].m, line |-> l + 1, clauses |-> bad]))
  /\ l' = l + 1 /\ UNCHANGED m
Spec == Init /\ [][Consume]_vars
Consumed == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + t.days + 1, 0, Trace)
===============================================================================
