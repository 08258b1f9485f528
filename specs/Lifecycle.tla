------------------------------- MODULE Lifecycle -------------------------------
(* The days of a use case over its life: dates and numbers of days set in any  *)
(* order, initialisations (forced or not), generations in between.             *)
(* Days are numbered from 1; 0 means not given.                                *)
\* Given: first * 1000 + number of days handed to a generation
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Starts, Ends, Nums, Today, Asked, SeriesLen, Given, Mode, Depth
VARIABLES u, hist
vars == <<u, hist>>

\* ds, de: dates set; init; first, nd: days simulated; given: they were an argument of the generation
Nothing == [made |-> FALSE, ds |-> 0, de |-> 0, init |-> FALSE, first |-> 0, nd |-> 0, given |-> FALSE, dead |-> FALSE]

Both(x) == x.ds # 0 /\ x.de # 0
\* the number of days an initialisation simulates
Count(x, n, asked) ==
  IF n # 0 THEN n
  ELSE IF Both(x) THEN x.de - x.ds + 1
  ELSE IF x.nd # 0 THEN x.nd ELSE asked
FirstDay(x, k, today) == IF x.ds # 0 THEN x.ds ELSE IF x.de # 0 THEN x.de - k + 1 ELSE today
\* a power series which is too short is refused
Initialised(x, n, asked, today, len) ==
  LET k == Count(x, n, asked) IN
  IF k > len THEN [x EXCEPT !.dead = TRUE]
  ELSE [x EXCEPT !.init = TRUE, !.nd = k, !.first = FirstDay(x, k, today), !.given = FALSE]

\* the operations; each gives the use case after it
AfterNew(ds, de, asked, today, len) ==
  LET x == [Nothing EXCEPT !.made = TRUE, !.ds = ds, !.de = de] IN
  IF Both(x) THEN Initialised(x, 0, asked, today, len) ELSE x
AfterInit(x, n, force, asked, today, len) ==
  IF x.init /\ ~force THEN x ELSE Initialised(x, n, asked, today, len)
AfterProp(x, asked, today, len) == AfterInit(x, 0, FALSE, asked, today, len)
AfterDays(x, a, k, len) ==
  IF x.init THEN x
  ELSE IF k > len THEN [x EXCEPT !.dead = TRUE]
  ELSE [x EXCEPT !.init = TRUE, !.first = a, !.nd = k, !.given = TRUE]

\* what is left open by the documentation
Fixed(x, n) == ~(x.given /\ n = 0 /\ ~Both(x))
DateOrder(ds, de) == ds = 0 \/ de = 0 \/ ds <= de

\* the weekday (0 = Monday) of a day, given that of day 1
Weekday(w1, d) == (w1 + d - 1) % 7
Weekend(w1, d) == Weekday(w1, d) >= 5
\* what the use case of the harness generates for its i-th day
Row(w1, d, i) == <<IF Weekend(w1, d) THEN 0 ELSE 1, IF Weekend(w1, d) THEN 1 ELSE 0, i, i>>
Rows(w1, x) == [i \in 1..x.nd |-> Row(w1, x.first + i - 1, i)]

O(op, a, b, n, f) == [op |-> op, a |-> a, b |-> b, n |-> n, f |-> f]
Init == u = Nothing /\ hist = <<>>
Rec(o) == /\ hist' = Append(hist, o)
          /\ IF Mode = "cover" THEN PrintT("@@SCRIPT " \o ToJson(hist')) ELSE TRUE
Some(S) == IF Mode = "walk" THEN RandomSubset(1, S) ELSE S
Alive == u.made /\ ~u.dead
Room == Len(hist) < Depth
Ops ==
  \/ ~u.made /\ \E ds \in Starts, de \in Ends : DateOrder(ds, de) /\ u' = AfterNew(ds, de, Asked, Today, SeriesLen) /\ Rec(O("new", ds, de, 0, FALSE))
  \/ Alive /\ \E d \in Some(Starts) : DateOrder(d, u.de) /\ u' = [u EXCEPT !.ds = d] /\ Rec(O("start", d, 0, 0, FALSE))
  \/ Alive /\ \E d \in Some(Ends) : DateOrder(u.ds, d) /\ u' = [u EXCEPT !.de = d] /\ Rec(O("end", 0, d, 0, FALSE))
  \/ Alive /\ \E n \in Some(Nums), f \in BOOLEAN :
       Fixed(u, n) /\ u' = AfterInit(u, n, f, Asked, Today, SeriesLen) /\ Rec(O("init", 0, 0, n, f))
  \/ Alive /\ \E w \in {"num", "index"} : u' = AfterProp(u, Asked, Today, SeriesLen) /\ Rec(O(w, 0, 0, 0, FALSE))
  \/ Alive /\ \E w \in Some({"rows", "flat", "cases", "par"}) : (w = "cases" => u.init) /\ u' = u /\ Rec(O(w, 0, 0, 0, FALSE))
  \/ Alive /\ \E g \in Some(Given) : (u.init \/ ~Both(u)) /\ ~u.init /\ u' = AfterDays(u, g \div 1000, g % 1000, SeriesLen) /\ Rec(O("days", g \div 1000, 0, g % 1000, FALSE))
LastOp == hist[Len(hist)]
Finish == Mode = "walk" /\ hist # <<>> /\ LastOp.op # "over" /\ (Len(hist) = Depth \/ u.dead) /\ PrintT("@@SCRIPT " \o ToJson(hist)) /\ hist' = Append(hist, O("over", 0, 0, 0, FALSE)) /\ u' = [u EXCEPT !.made = TRUE, !.dead = TRUE]
Next == (Room /\ Ops) \/ Finish
Spec == Init /\ [][Next]_vars
StateView == u
CoverView == IF hist = <<>> THEN <<u>> ELSE <<u, LastOp>>

\* a use case keeps its days until a forced initialisation
Keeps == [][u.init /\ u'.made /\ <<u.first, u.nd>> # <<u'.first, u'.nd>>
            => \E n \in Nums : u' = AfterInit(u, n, TRUE, Asked, Today, SeriesLen)]_vars
\* what is simulated agrees with the dates in force when it was initialised
Agrees == [][~u.init /\ u'.init /\ ~u'.given => /\ (u'.ds # 0 => u'.first = u'.ds)
                                                /\ (u'.ds = 0 /\ u'.de # 0 => u'.first + u'.nd - 1 = u'.de)]_vars
Complete == u.init => u.nd >= 1 /\ u.nd <= SeriesLen
===============================================================================
