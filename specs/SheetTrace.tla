------------------------------- MODULE SheetTrace -------------------------------
(* Recorded sheets: what was loaded from each is its meaning, or it was refused *)
EXTENDS Sheet
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, rows, res, users, daily]
VARIABLES m
tv == <<rows, users, objs, made, over, hist, m>>
Row(r) == [r EXCEPT !.args = IF @ = <<>> THEN NoArgs ELSE @]
Rows_(t) == [i \in DOMAIN t.rows |-> Row(t.rows[i])]
Wrong(t) ==
  LET rr == Rows_(t) IN
  IF RefusedSheet(rr) THEN (IF t.res # "refused" THEN {"C15.accepted"} ELSE {})
  ELSE IF t.res # "ok" THEN {"C15." \o t.res}
  ELSE LET w == Meaning(rr) IN
       (IF [u \in DOMAIN w |-> [name |-> w[u].name, n |-> w[u].n, pref |-> w[u].pref]]
           # [u \in DOMAIN t.users |-> [name |-> t.users[u].name, n |-> t.users[u].n, pref |-> t.users[u].pref]] THEN {"C15.users"}
        ELSE IF [u \in DOMAIN w |-> Len(w[u].apps)] # [u \in DOMAIN w |-> Len(t.users[u].apps)] THEN {"C15.appliances"}
        ELSE UNION {LET a == w[u].apps[i]  b == t.users[u].apps[i] IN {"C15." \o p : p \in {q \in Pars : a[q] # b[q]}}
                    : <<u, i>> \in {x \in (DOMAIN w) \X (1..20) : x[2] \in DOMAIN w[x[1]].apps}})
       \cup (IF t.daily # "" /\ t.daily # rr[1].args["power"] THEN {"C15.dayvalue"} ELSE {})
TInit == SInit /\ m = 1
TNext == /\ m <= Len(Trace)
         /\ LET w == Wrong(Trace[m]) IN IF w = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([model |-> Trace[m].m, clauses |-> w]))
         /\ m' = m + 1 /\ UNCHANGED <<rows, users, objs, made, over, hist>>
TSpec == TInit /\ [][TNext]_tv
Finished == m > Len(Trace) => PrintT("@@STAT " \o ToJson([refused |-> Cardinality({i \in DOMAIN Trace : RefusedSheet(Rows_(Trace[i]))})]))
===============================================================================
