------------------------------- MODULE Community -------------------------------
(* Aggregation of a community's load, day by day, user type by user type,      *)
(* single user by single user and appliance by appliance.  What an appliance   *)
(* contributes on a day is abstracted from ApplianceDay: nothing, its windows  *)
(* filled (flat), or its windows marked and Budget minutes of them switched on.*)
EXTENDS CommunityRules, TLC

CONSTANT Comms
VARIABLES com, d, u, i, a,   \* community, day, user type, single user, appliance: progress of the loops
          pref,              \* preference drawn for the single user and day
          row,               \* minute -> digit vector, load of the day so far
          parts,             \* load of each user type on this day
          prefs,             \* prefs[user type]: preferences drawn on this day, in order
          out                \* finished rows
vars == <<com, d, u, i, a, pref, row, parts, prefs, out>>

Mins(g) == 0..(g.day - 1)
Zero(g) == [m \in Mins(g) |-> [k \in 1..(Len(g.apps) + 1) |-> 0]]
Add(p, q) == [m \in DOMAIN p |-> [k \in DOMAIN p[m] |-> p[m][k] + q[m][k]]]
Sub(g, k) == {j \in AppsOf(g) : g.apps[j].u = k}
NextApp(g, k, j) == LET S == {x \in Sub(g, k) : x > j} IN IF S = {} THEN 0 ELSE Min(S)

Init == /\ com \in ToSet(Comms)
        /\ d = 0 /\ u = 1 /\ i = 0 /\ a = 0 /\ pref = 0
        /\ row = Zero(com) /\ parts = [k \in 1..Len(com.users) |-> Zero(com)] /\ out = <<>>
        /\ prefs = [k \in 1..Len(com.users) |-> <<>>]

Running == d < com.days
\* the next single user of the type draws a preference
Single == /\ Running /\ a = 0 /\ u <= Len(com.users) /\ i < com.users[u].n
          /\ \E k \in (IF com.users[u].pref = 0 THEN {0} ELSE 1..com.users[u].pref) :
               pref' = k /\ prefs' = [prefs EXCEPT ![u] = Append(@, k)]
          /\ i' = i + 1 /\ a' = NextApp(com, u, 0)
          /\ UNCHANGED <<com, d, u, row, parts, out>>
NextUser == /\ Running /\ a = 0 /\ u <= Len(com.users) /\ i = com.users[u].n
            /\ u' = u + 1 /\ i' = 0 /\ pref' = 0
            /\ UNCHANGED <<com, d, a, row, parts, prefs, out>>

WinMins(x) == UNION {x.win[k][1]..(x.win[k][2] - 1) : k \in 1..3}
Contribution(g, j, on, full) ==
  [m \in Mins(g) |-> [k \in 1..(Len(g.apps) + 1) |->
     IF k = j + 1 THEN (IF m \in on THEN Val(g.apps[j], d) ELSE 0)
     ELSE IF k = 1 /\ full /\ m \in WinMins(g.apps[j]) \ on THEN 1 ELSE 0]]
Possible(g, j) ==
  LET x == g.apps[j] W == WinMins(x)
      run == IF x.flat THEN {Contribution(g, j, W, FALSE)}
             ELSE {Contribution(g, j, S, TRUE) : S \in {T \in SUBSET W : Cardinality(T) = Budget(x)}}
      barred == Off(x, g.ord + d) \/ (x.pref # 0 /\ x.pref # pref)
  IN IF barred THEN {Zero(g)} ELSE IF x.occ < 1000 THEN run \cup {Zero(g)} ELSE run
Contribute == /\ a # 0
              /\ \E q \in Possible(com, a) :
                   row' = Add(row, q) /\ parts' = [parts EXCEPT ![u] = Add(@, q)]
              /\ a' = NextApp(com, u, a)
              /\ UNCHANGED <<com, d, u, i, pref, prefs, out>>
EndDay == /\ Running /\ u = Len(com.users) + 1
          /\ out' = Append(out, row) /\ d' = d + 1 /\ u' = 1 /\ i' = 0
          /\ row' = Zero(com) /\ parts' = [k \in 1..Len(com.users) |-> Zero(com)] /\ pref' = 0
          /\ prefs' = [k \in 1..Len(com.users) |-> <<>>]
          /\ UNCHANGED <<com, a>>
Next == Single \/ NextUser \/ Contribute \/ EndDay
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RowRuns(p) ==
  LET ms == SetToSortSeq({m \in DOMAIN p : \E k \in DOMAIN p[m] : p[m][k] # 0}, LAMBDA x, y : x < y)
  IN FoldLeft(LAMBDA acc, m :
       IF acc # <<>> /\ acc[Len(acc)][2] = m /\ acc[Len(acc)][3] = p[m]
       THEN [acc EXCEPT ![Len(acc)] = <<@[1], m + 1, @[3]>>]
       ELSE Append(acc, <<m, m + 1, p[m]>>), <<>>, ms)
-------------------------------------------------------------------------------
TypeOK == d \in 0..com.days /\ u \in 1..(Len(com.users) + 1) /\ Len(out) = d
\* what is summed up is the sum of the parts of the user types
SumOfParts == row = FoldLeft(LAMBDA acc, k : Add(acc, parts[k]), Zero(com), [k \in 1..Len(com.users) |-> k])
DayDone == Running /\ u = Len(com.users) + 1
PrefPerSingle == DayDone => \A k \in 1..Len(com.users) : Len(prefs[k]) = com.users[k].n
RowOK == DayDone => RowFails(com, RowRuns(row), d) = {}
PartOK == DayDone => \A k \in 1..Len(com.users) : PartFails(com, RowRuns(row), RowRuns(parts[k]), k) = {}
Ends == <>(d = com.days)
===============================================================================
