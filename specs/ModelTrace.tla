------------------------------- MODULE ModelTrace -------------------------------
(* Recorded programs: after every call the real objects are those of Model.    *)
EXTENDS Model
Judge == IOEnv.JUDGE   \* the property whose clauses are reported
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, ev]
VARIABLES m, l, memo
tv == <<users, objs, made, over, hist, m, l, memo>>
T == Trace[m]
Args(e) == IF e.args = <<>> THEN NoArgs ELSE e.args

Step(e) ==
  CASE e.op = "user" -> AddUser(e.args.name, Num[e.args.n], Num[e.args.pref])
    [] e.op = "declare" -> Declare(e.u, Args(e))
    [] e.op = "construct" -> Construct(e.u, Args(e))
    [] e.op = "windows" -> SetWindows(e.h, Args(e))
    [] e.op = "cycle" -> SetCycle(e.h, e.k, Args(e))
    [] e.op = "behaviour" -> SetBehaviour(e.h, Args(e))
    [] e.op = "add" -> AddInstance(e.h)
    [] e.op = "save" -> /\ objs' = IF e.form = "swap" THEN [h \in DOMAIN objs |-> IF h \in Kept THEN objs[h] ELSE [objs[h] EXCEPT !.user = 0]] ELSE objs
                        /\ UNCHANGED <<users, made, over>>
    [] OTHER -> Unchanged
Refused(e) ==
  \/ e.op = "declare" /\ ~AllOk(Args(e))
  \/ e.op = "construct" /\ ~PowerOk(Args(e))
  \/ e.op = "windows" /\ ~WinsOk(objs[e.h].par, Args(e))
  \/ e.op = "refuse"
\* the lists of users and appliances, as far as they are alive
Lists(us) == [u \in DOMAIN us |-> [name |-> us[u].name, n |-> us[u].n, pref |-> us[u].pref, apps |-> us[u].apps]]
Changed == {h \in DOMAIN objs' : h \notin DOMAIN objs \/ objs'[h].par # objs[h].par}
Seen(e) == {e.chg[i][1] : i \in DOMAIN e.chg}
ObjsOk(e) == Seen(e) = Changed /\ \A i \in DOMAIN e.chg : e.chg[i][2] = objs'[e.chg[i][1]].par
RowsOk(r) == r = Rows
\* every pair of appliances is equal exactly when all their parameters are
CompareOk(e) == \A i \in DOMAIN e.eq : e.eq[i][3] = (objs[e.eq[i][1]].par = objs[e.eq[i][2]].par)
\* users are equal exactly when their names, numbers, preferences and appliances are
User(u) == <<users[u].name, users[u].n, users[u].pref, [i \in DOMAIN users[u].apps |-> objs[users[u].apps[i]].par]>>
UsersDiffer(e) == \E i \in DOMAIN e.ueq : ~e.ueq[i][3] /\ User(e.ueq[i][1]) = User(e.ueq[i][2])
UsersEqual(e) == \E i \in DOMAIN e.ueq : e.ueq[i][3] /\ User(e.ueq[i][1]) # User(e.ueq[i][2])
\* what is generated with a given seed and the theoretical maximum are functions of the model
Term(e) == ToString(<<e.form, e.k, [u \in DOMAIN users |-> <<users[u].n, users[u].pref, [i \in DOMAIN users[u].apps |-> objs[users[u].apps[i]].par]>>]>>)
Digest(e) == e.op = "gen" /\ e.form \in {"seeded", "maximum"}

Wrong(e) ==
  IF Refused(e)
  THEN (IF e.res # "refused" THEN {"C16.refused"} ELSE {})
       \cup (IF e.op # "windows" /\ (Lists(users') # e.lists \/ e.chg # <<>>) THEN {"C16.afterrefused"} ELSE {})
  ELSE IF e.res # "ok" THEN {IF e.op = "save" THEN "C14." \o e.res ELSE IF e.op = "gen" THEN "C17." \o e.res ELSE "C16." \o e.res}
  ELSE (IF Lists(users') # e.lists THEN {IF e.op = "gen" THEN "C17.lists" ELSE IF e.op = "save" THEN "C14.lists" ELSE "C16.lists"} ELSE {})
    \cup (IF ~ObjsOk(e) THEN {IF e.op = "gen" THEN "C17.parameters" ELSE IF e.op = "save" THEN "C14.parameters" ELSE "C16.parameters"} ELSE {})
    \cup (IF e.op = "compare" /\ ~CompareOk(e) THEN {"C16.equality"} ELSE {})
    \cup (IF UsersDiffer(e) THEN {"C16.equalusers"} ELSE {})
    \cup (IF e.op = "save" /\ \E i \in DOMAIN e.tables : ~RowsOk(e.tables[i]) THEN {"C14.table"} ELSE {})
    \cup (IF Digest(e) /\ Term(e) \in DOMAIN memo /\ memo[Term(e)] # e.digest THEN {"C17." \o e.form} ELSE {})
Mine(w) == {x \in w : Judge = SubSeq(x, 1, 3)}

TInit == Init /\ m = 1 /\ l = 1 /\ memo = [x \in {} |-> ""]
Consume ==
  /\ m <= Len(Trace) /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ Step(e)
     /\ (LET w == Mine(Wrong(e)) IN IF w = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([model |-> T.m, line |-> l, clauses |-> w])))
     \* reported apart, as it says nothing about the rest of the program
     /\ (IF Judge = "C16" /\ Wrong(e) = {} /\ UsersEqual(e) THEN PrintT("@@USERS " \o ToJson([model |-> T.m, line |-> l])) ELSE TRUE)
     /\ memo' = IF Digest(e) /\ e.digest # "" THEN (Term(e) :> e.digest) @@ memo ELSE memo
     \* after a failure the rest of the program means nothing
     /\ l' = IF Wrong(e) # {} THEN Len(T.ev) + 1 ELSE l + 1
  /\ UNCHANGED <<m, hist>>
NextTrace == /\ m <= Len(Trace) /\ l > Len(T.ev) /\ m' = m + 1 /\ l' = 1 /\ users' = <<>> /\ objs' = <<>> /\ made' = FALSE /\ over' = FALSE
             /\ UNCHANGED <<hist, memo>>
TSpec == TInit /\ [][Consume \/ NextTrace]_tv
Finished == m > Len(Trace) => PrintT("@@STAT " \o ToJson([terms |-> Cardinality(DOMAIN memo)]))
===============================================================================
