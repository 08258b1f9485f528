--------------------------------- MODULE Sheet ---------------------------------
(* Input spreadsheets: any subset of the optional cells filled, power given in *)
(* every documented and undocumented format.  What the sheet means is what     *)
(* Model says of the declarations it contains.                                 *)
EXTENDS Model
VARIABLES rows    \* seq of [user, n, pref, args, half, how]: n, pref are texts, "" for an empty cell
svars == <<rows, users, objs, made, over, hist>>

Hows == {"json", "column", "two", "other", "absolute", "quoted", "odd"}
BadHow == {"short", "long", "text", "gap", "three", "rowwise", "json short", "json long", "json text", "json null", "json dict",
           "json nan", "unparsable", "two text", "two short", "no sheet", "wide two"}
Series == {"series1", "series2", "series3"}
IsBad(r) == r.how \in BadHow

\* the users in order of their first row
RECURSIVE Names(_, _)
Names(rr, i) == IF i > Len(rr) THEN <<>>
                ELSE LET rest == Names(rr, i + 1) IN <<rr[i].user>> \o SelectSeq(rest, LAMBDA x : x # rr[i].user)
RowsOf(rr, name) == SelectSeq(rr, LAMBDA r : r.user = name)
\* what an empty cell stands for
UserNum(c) == IF c = "" THEN "1" ELSE c
UserPref(c) == IF c = "" THEN "0" ELSE c
Conflict(rr) == \E i, j \in DOMAIN rr : rr[i].user = rr[j].user /\ (UserNum(rr[i].n) # UserNum(rr[j].n) \/ UserPref(rr[i].pref) # UserPref(rr[j].pref))
\* an empty cell next to the default spelled out: left open
Open(name, n, pref) == \E i \in DOMAIN rows : /\ rows[i].user = name
                                            /\ \/ rows[i].n # n /\ UserNum(rows[i].n) = UserNum(n)
                                               \/ rows[i].pref # pref /\ UserPref(rows[i].pref) = UserPref(pref)
RefusedSheet(rr) == Conflict(rr) \/ \E i \in DOMAIN rr : IsBad(rr[i]) \/ ~AllOk(rr[i].args)
\* the appliances of a user, as declared row after row
RECURSIVE AppsOf(_, _)
AppsOf(list, rr) ==
  IF rr = <<>> THEN list
  ELSE LET args == rr[1].args
           a == All(args)
           b == IF a["name"] = "" THEN [a EXCEPT !["name"] = "appliance_" \o ToString(Len(list) + 1)] ELSE a
           add == (IF HasWins(args) THEN b ELSE a) \notin Range(list)
       IN AppsOf(IF add THEN Append(list, b) ELSE list, Tail(rr))
Meaning(rr) == LET ns == Names(rr, 1) IN
  [u \in 1..Len(ns) |-> LET mine == RowsOf(rr, ns[u]) IN
     [name |-> ns[u], n |-> UserNum(mine[1].n), pref |-> UserPref(mine[1].pref),
      apps |-> AppsOf(<<>>, mine)]]

\* --------------------------------------------------------------------------
SInit == Init /\ rows = <<>>
\* cells of the user's first row, so that most sheets agree with themselves
CellsOf(name, x) == IF \E i \in DOMAIN rows : rows[i].user = name
                    THEN LET r == CHOOSE r \in Range(rows) : r.user = name IN <<r.n, r.pref>>
                    ELSE <<RandomElement({"", "1", "4"}), RandomElement({"", "0", "2"})>>
DrawRow(x) ==
  LET name == RandomElement({"a", "b 2", "12"})
      same == CellsOf(name, x)
      odd == CASE RandomElement(1..16) = 1 -> <<RandomElement({"", "1", "2"}), same[2]>>
               [] RandomElement(1..16) = 1 -> <<same[1], RandomElement({"", "0", "3"})>>
               [] OTHER -> same
      cells == IF Open(name, odd[1], odd[2]) THEN same ELSE odd
      core == Without(Draw(Range(Core), x), {"func_time"}) @@ (IF RandomElement(1..3) = 1 THEN ("func_time" :> RandomElement(Values("func_time"))) ELSE NoArgs)
      wins == IF RandomElement(1..8) = 1 THEN NoArgs ELSE DrawWins(x)
      cyc == (IF Some(x) THEN DrawCycle(1, x) ELSE NoArgs) @@ (IF Some(x) THEN DrawCycle(2, x) ELSE NoArgs) @@ (IF Some(x) THEN DrawCycle(3, x) ELSE NoArgs)
      args == core @@ wins @@ cyc
      bad == RandomElement(1..12) = 1
      pow == IF bad THEN "series1" ELSE IF "power" \in DOMAIN args THEN args["power"] ELSE ""
      how == IF bad THEN RandomElement(BadHow) ELSE IF pow \in Series THEN RandomElement(Hows) ELSE "number"
  IN [user |-> name, n |-> cells[1], pref |-> cells[2],
      args |-> IF bad THEN ("power" :> "series1") @@ args ELSE args,
      half |-> {p \in (Cws \cup {"window_2", "window_3"}) \ DOMAIN args : RandomElement(1..6) = 1}, how |-> how]
AddRow == Len(hist) < Depth /\ \E r \in {DrawRow(hist)} : rows' = Append(rows, r) /\ hist' = Append(hist, 0) /\ UNCHANGED <<users, objs, made, over>>
SFinish == /\ Len(rows) > 0 /\ Len(hist) < 100 /\ (Len(rows) = Depth \/ RandomElement(1..3) = 1)
           /\ PrintT("@@SCRIPT " \o ToJson(rows)) /\ hist' = [i \in 1..100 |-> 0] /\ UNCHANGED <<rows, users, objs, made, over>>
SSpec == SInit /\ [][AddRow \/ SFinish]_svars
===============================================================================
