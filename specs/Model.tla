--------------------------------- MODULE Model ---------------------------------
(* How models are declared: users, appliances, windows and duty cycles given   *)
(* in any way and order; what is refused; what is saved; and that generating   *)
(* profiles leaves everything as it was.                                       *)
(* Every parameter value is a text in canonical form.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Randomization

Core == <<"number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
          "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name">>
Legacy == SelectSeq(Core, LAMBDA p : p # "continuous_duty_cycle")
WinPars == {"window_1", "window_2", "window_3", "random_var_w"}
CyclePars == <<{"p_11", "t_11", "p_12", "t_12", "r_c1", "cw11", "cw12"},
               {"p_21", "t_21", "p_22", "t_22", "r_c2", "cw21", "cw22"},
               {"p_31", "t_31", "p_32", "t_32", "r_c3", "cw31", "cw32"}>>
Cws == {"cw11", "cw12", "cw21", "cw22", "cw31", "cw32"}
CyclePar == UNION {CyclePars[k] : k \in 1..3}
Pars == Range(Core) \cup WinPars \cup CyclePar

\* documented defaults
Default == [p \in Pars |->
  CASE p \in {"number", "num_windows", "func_cycle", "continuous_duty_cycle", "occasional_use"} -> "1"
    [] p \in {"fixed", "flat"} -> "no"
    [] p = "wd_we_type" -> "2"
    [] p = "name" -> ""
    [] p \in Cws \cup {"window_1", "window_2", "window_3"} -> "[0,0]"
    [] OTHER -> "0"]

\* minutes of the windows used, the only values which are calculated with
WLen == ("[0,0]" :> 0) @@ ("[0,1440]" :> 1440) @@ ("[0,300]" :> 300) @@ ("[300,301]" :> 1) @@ ("[100,400]" :> 300)
        @@ ("[500,700]" :> 200) @@ ("[1439,1440]" :> 1) @@ ("[720,1440]" :> 720) @@ ("[10,20]" :> 10) @@ ("[0,1439]" :> 1439)
Num == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("10" :> 10) @@ ("45" :> 45) @@ ("300" :> 300) @@ ("301" :> 301) @@ ("500" :> 500) @@ ("1440" :> 1440) @@ ("37" :> 37)
Windows == DOMAIN WLen
BadPowers == {"bad:list", "bad:none", "bad:array", "bad:dict"}
Values(p) ==
  CASE p = "number" -> {"1", "2", "3", "20", "37"}
    [] p = "power" -> {"5", "7.25", "100", "series1", "series2", "series3", "0", "0.1", "1e-06", "123456.789"}
    [] p = "num_windows" -> {"1", "2", "3"}
    [] p = "func_time" -> {"0", "1", "45", "300", "301", "500", "1440"}
    [] p = "time_fraction_random_variability" -> {"0", "0.1", "1"}
    [] p = "func_cycle" -> {"0", "1", "5", "60"}
    [] p \in {"fixed", "flat"} -> {"yes", "no"}
    [] p = "fixed_cycle" -> {"0", "1", "2", "3"}
    [] p = "continuous_duty_cycle" -> {"0", "1"}
    [] p = "occasional_use" -> {"0.3", "1", "0", "0.05"}
    [] p = "thermal_p_var" -> {"0", "0.2", "0.123456789012345"}
    [] p = "pref_index" -> {"0", "1", "2", "3"}
    [] p = "wd_we_type" -> {"0", "1", "2"}
    [] p = "name" -> {"fan", "Fan 2", "007", "=1+1", "x y", "x"}
    [] p \in WinPars \ {"random_var_w"} -> Windows
    [] p = "random_var_w" -> {"0", "0.35", "1", "0.05"}
    [] p \in Cws -> Windows
    [] p \in {"p_11", "p_12", "p_21", "p_22", "p_31", "p_32"} -> {"11", "2.5", "0.1", "0", "3000"}
    [] p \in {"r_c1", "r_c2", "r_c3"} -> {"0.2", "1", "0.05"}
    [] OTHER -> {"3", "12", "1", "0", "30"}

\* --------------------------------------------------------------------------
\* the effect of the declarations on one appliance; "error" if refused
Given(args, p, old) == IF p \in DOMAIN args THEN args[p] ELSE old
Built(args) == [p \in Pars |-> IF p \in Range(Core) THEN Given(args, p, Default[p]) ELSE Default[p]]
PowerOk(args) == "power" \notin DOMAIN args \/ args["power"] \notin BadPowers
Wins(a, args) ==
  [a EXCEPT !["window_1"] = Given(args, "window_1", "[0,1440]"), !["window_2"] = Given(args, "window_2", a["window_2"]),
            !["window_3"] = Given(args, "window_3", a["window_3"]), !["random_var_w"] = Given(args, "random_var_w", "0")]
WinsOk(a, args) ==
  LET b == Wins(a, args)
      n == Num[a["num_windows"]]
      len == WLen[b["window_1"]] + (IF n >= 2 THEN WLen[b["window_2"]] ELSE 0) + (IF n >= 3 THEN WLen[b["window_3"]] ELSE 0)
  IN /\ n >= 2 => "window_2" \in DOMAIN args
     /\ n >= 3 => "window_3" \in DOMAIN args
     /\ len >= Num[a["func_time"]]
\* the windows of a single cycle are those of the appliance unless given
WinsCw(a) == IF a["fixed_cycle"] = "1" THEN [a EXCEPT !["cw11"] = a["window_1"], !["cw12"] = a["window_2"]] ELSE a
Cycle(a, k, args) == [p \in Pars |-> IF p \notin CyclePars[k] THEN a[p] ELSE Given(args, p, IF p \in Cws THEN a[p] ELSE "0")]
HasCycle(k, args) == DOMAIN args \cap CyclePars[k] # {}
CycleIf(a, k, args) == IF HasCycle(k, args) THEN Cycle(a, k, args) ELSE a
Cycles(a, args) == CycleIf(CycleIf(CycleIf(a, 1, args), 2, args), 3, args)
Behaviour(a, args) == [p \in Pars |-> IF p \in Cws THEN Given(args, p, "[0,0]") ELSE a[p]]
HasWins(args) == DOMAIN args \cap WinPars # {}
AllOk(args) == PowerOk(args) /\ (HasWins(args) => WinsOk(Built(args), args))
All(args) == Cycles(IF HasWins(args) THEN WinsCw(Wins(Built(args), args)) ELSE Built(args), args)

\* --------------------------------------------------------------------------
VARIABLES users,   \* seq of [name, n, pref, apps: seq of appliance numbers]
          objs,    \* seq of [user, par]: every appliance object of the program
          made,    \* whether there is a use case
          over,    \* a refused call ends the program: what is left of the object is not specified
          hist
vars == <<users, objs, made, over, hist>>
NoArgs == [x \in {} |-> ""]
O(op, u, h, a) == [op |-> op, u |-> u, h |-> h, args |-> a, form |-> "", k |-> 0]

Same(i, a) == objs[i].par = a
Named(u, a) == IF a["name"] = "" THEN [a EXCEPT !["name"] = "appliance_" \o ToString(Len(users[u].apps) + 1)] ELSE a
Present(u, a) == \E i \in Range(users[u].apps) : Same(i, a)

AddUser(name, n, pref) == users' = Append(users, [name |-> name, n |-> n, pref |-> pref, apps |-> <<>>]) /\ UNCHANGED <<objs, made, over>>
\* a new appliance declared by one call
Declare(u, args) ==
  IF ~AllOk(args) THEN UNCHANGED <<users, objs, made, over>>
  ELSE LET a == All(args)
           b == Named(u, a)
           add == ~Present(u, IF HasWins(args) THEN b ELSE a)
       IN /\ objs' = Append(objs, [user |-> u, par |-> IF add THEN b ELSE a])
          /\ users' = IF add THEN [users EXCEPT ![u].apps = Append(@, Len(objs) + 1)] ELSE users
          /\ UNCHANGED <<made, over>>
\* an appliance object which is not given to the user yet
Construct(u, args) ==
  IF ~PowerOk(args) THEN UNCHANGED <<users, objs, made, over>>
  ELSE objs' = Append(objs, [user |-> u, par |-> Built(args)]) /\ UNCHANGED <<users, made, over>>
Listed(u, h) == h \in Range(users[u].apps)
SetWindows(h, args) ==
  LET u == objs[h].user  a == objs[h].par  w == Wins(a, args) IN
  IF ~WinsOk(a, args) THEN over' = TRUE /\ UNCHANGED <<users, objs, made>>
  ELSE /\ UNCHANGED <<made, over>>
       /\ IF Listed(u, h)
          THEN objs' = [objs EXCEPT ![h].par = WinsCw(w)] /\ UNCHANGED users
          ELSE LET add == ~Present(u, w)  b == IF add THEN Named(u, w) ELSE w
               IN /\ objs' = [objs EXCEPT ![h].par = WinsCw(b)]
                  /\ users' = IF add THEN [users EXCEPT ![u].apps = Append(@, h)] ELSE users
SetCycle(h, k, args) == objs' = [objs EXCEPT ![h].par = Cycle(@, k, args)] /\ UNCHANGED <<users, made, over>>
SetBehaviour(h, args) == objs' = [objs EXCEPT ![h].par = Behaviour(@, args)] /\ UNCHANGED <<users, made, over>>
AddInstance(h) ==
  LET u == objs[h].user  a == objs[h].par  add == ~Listed(u, h) /\ ~Present(u, a) IN
  /\ objs' = IF add THEN [objs EXCEPT ![h].par = Named(u, a)] ELSE objs
  /\ users' = IF add THEN [users EXCEPT ![u].apps = Append(@, h)] ELSE users
  /\ UNCHANGED <<made, over>>
Unchanged == UNCHANGED <<users, objs, made, over>>

\* what a file or a table says: one row per appliance
Rows == FoldLeft(LAMBDA s, u : s \o [i \in 1..Len(users[u].apps) |->
                    [user |-> users[u].name, n |-> users[u].n, pref |-> users[u].pref, par |-> objs[users[u].apps[i]].par]],
                 <<>>, [u \in 1..Len(users) |-> u])
\* models which can be saved: every user has a name of its own and appliances, none of them twice, with their windows declared
Complete(a) == LET n == Num[a["num_windows"]] IN
  WLen[a["window_1"]] + (IF n >= 2 THEN WLen[a["window_2"]] ELSE 0) + (IF n >= 3 THEN WLen[a["window_3"]] ELSE 0) >= Num[a["func_time"]]
Savable == /\ users # <<>>
           /\ \A u, v \in DOMAIN users : users[u].apps # <<>> /\ users[u].name # "" /\ (u # v => users[u].name # users[v].name)
           /\ \A u \in DOMAIN users : \A i \in DOMAIN users[u].apps : Complete(objs[users[u].apps[i]].par)
           /\ \A u \in DOMAIN users : \A i, j \in DOMAIN users[u].apps : i # j => objs[users[u].apps[i]].par # objs[users[u].apps[j]].par
\* the program goes on with the model it loaded: the appliances in the lists are the ones it has now
Kept == {h \in DOMAIN objs : \E u \in DOMAIN users : Listed(u, h)}

\* --------------------------------------------------------------------------
CONSTANTS MaxUsers, MaxObjs, Depth, Kinds, Mode
Pick(S) == IF Mode = "walk" THEN RandomSubset(1, S) ELSE S
Rec(o) == hist' = IF Mode = "walk" THEN Append(hist, o) ELSE hist
\* some parameters with values, drawn anew for every state
Draw(P, x) == LET D == {p \in P : RandomElement(1..3) = 1} IN [p \in D |-> RandomElement(Values(p))]
\* what follows depends on hist so that TLC draws it again
DrawCore(x) == LET a == Draw(Range(Core), x) IN IF RandomElement(1..25) = 1 THEN ("power" :> RandomElement(BadPowers)) @@ a ELSE a
DrawWins(x) ==
  IF RandomElement(1..3) = 1 THEN Draw(WinPars, x)
  ELSE [p \in WinPars |-> IF p = "random_var_w" THEN RandomElement(Values(p)) ELSE RandomElement({"[0,300]", "[500,700]", "[720,1440]", "[0,1440]"})]
DrawCycle(k, x) == Draw(CyclePars[k], x)
Some(x) == RandomElement(1..2) = 1
DrawAll(x) == DrawCore(x) @@ (IF RandomElement(1..4) # 1 THEN DrawWins(x) ELSE NoArgs)
              @@ (IF Some(x) THEN DrawCycle(1, x) ELSE NoArgs) @@ (IF Some(x) THEN DrawCycle(2, x) ELSE NoArgs) @@ (IF Some(x) THEN DrawCycle(3, x) ELSE NoArgs)
\* an appliance which is used, most days, with everything that can vary
AnyOf(S) == RandomElement(S)
DrawLively(x) ==
  ("number" :> AnyOf({"1", "2", "3"})) @@ ("power" :> AnyOf({"5", "7.25", "100", "series1", "series2"})) @@ ("func_time" :> AnyOf({"1", "45", "300"}))
  @@ ("num_windows" :> AnyOf({"1", "2", "3"})) @@ ("time_fraction_random_variability" :> AnyOf({"0", "0.1", "1"})) @@ ("func_cycle" :> AnyOf({"0", "1", "5", "60"}))
  @@ ("fixed" :> AnyOf({"yes", "no"})) @@ ("flat" :> IF RandomElement(1..6) = 1 THEN "yes" ELSE "no") @@ ("fixed_cycle" :> AnyOf({"0", "1", "2", "3"}))
  @@ ("continuous_duty_cycle" :> AnyOf({"0", "1"})) @@ ("occasional_use" :> IF RandomElement(1..4) = 1 THEN "0.3" ELSE "1") @@ ("thermal_p_var" :> AnyOf({"0", "0.2"}))
  @@ ("pref_index" :> IF RandomElement(1..6) = 1 THEN "1" ELSE "0") @@ ("wd_we_type" :> IF RandomElement(1..6) = 1 THEN "1" ELSE "2")
  @@ [p \in WinPars |-> IF p = "random_var_w" THEN AnyOf({"0", "0.35", "1", "0.05"})
                        ELSE IF p = "window_1" THEN AnyOf({"[0,300]", "[100,400]", "[0,1440]"}) ELSE IF p = "window_2" THEN "[500,700]" ELSE "[720,1440]"]
  @@ [p \in CyclePar \cap Cws |-> IF RandomElement(1..3) = 1 THEN "[0,0]" ELSE AnyOf({"[0,300]", "[500,700]", "[720,1440]", "[0,1440]"})]
  @@ [p \in CyclePar \ Cws |-> IF p \in {"r_c1", "r_c2", "r_c3"} THEN AnyOf({"0.2", "1", "0.05"})
                                ELSE IF p \in {"p_11", "p_12", "p_21", "p_22", "p_31", "p_32"} THEN AnyOf({"11", "2.5", "3000"}) ELSE AnyOf({"3", "12", "30"})]
\* positional arguments: the first n, the rest by keyword
Positional(args, n, S) == [p \in {S[i] : i \in 1..n} |-> Given(args, p, IF p = "name" THEN "x" ELSE Default[p])] @@ args
Without(args, S) == [p \in DOMAIN args \ S |-> args[p]]

\* an earlier declaration, possibly with one parameter changed
Earlier(x) == {i \in DOMAIN x : x[i].op = "declare"}
Copy(x, i) == LET a == x[i].args  p == RandomElement(DOMAIN a \cup {"name"})
              IN IF Some(x) THEN a ELSE [q \in {p} |-> RandomElement(Values(p))] @@ a

\* exploring exhaustively uses a few arguments which conflict with each other
Few == [core |-> {NoArgs, [func_time |-> "45"], [name |-> "fan", num_windows |-> "2"]},
        wins |-> {NoArgs, [window_1 |-> "[0,300]"], [window_1 |-> "[300,301]", window_2 |-> "[0,300]"]},
        cycle |-> {NoArgs, [p_11 |-> "11"]},
        cws |-> {NoArgs, [cw11 |-> "[0,300]"]},
        all |-> {[name |-> "fan"], [name |-> "fan", window_1 |-> "[0,300]"], [func_time |-> "45", window_1 |-> "[300,301]"], [fixed_cycle |-> "1", window_1 |-> "[0,300]"]}]
Choice(kind, drawn) == IF Mode = "walk" THEN {drawn} ELSE Few[kind]
Init == users = <<>> /\ objs = <<>> /\ made = FALSE /\ over = FALSE /\ hist = <<>>
Go == ~over
Free == Len(objs) < MaxObjs
Alive == {h \in DOMAIN objs : objs[h].user # 0}
Forms == {"kw", "pos", "legacy"}
\* programs about generation build first, and mostly generate later
Building == Mode # "walk" \/ Kinds # {"build", "gen"} \/ Len(hist) < 6 \/ \A u \in DOMAIN users : users[u].apps = <<>>
Ops ==
  \/ Building /\ Len(users) < MaxUsers /\ "build" \in Kinds
     /\ \E name \in Pick({"a", "b 2", "Z"}), n \in (IF Mode # "walk" THEN {1} ELSE IF Kinds = {"build", "gen"} THEN Pick({1, 2, 3}) ELSE Pick({1, 2, 10, 37})), pref \in (IF Mode = "walk" THEN Pick({0, 1, 2, 3}) ELSE {0}) :
          /\ \A u \in DOMAIN users : users[u].name # name
          /\ AddUser(name, n, pref) /\ Rec(O("user", 0, 0, [name |-> name, n |-> ToString(n), pref |-> ToString(pref)]))
  \/ Building /\ Free /\ \E u \in Pick(DOMAIN users), form \in (IF Mode = "walk" THEN Pick(Forms) ELSE {"kw"}), new \in (IF Mode = "walk" THEN {0, 1} ELSE {0}) :
       \E full \in Choice("all", IF new = 1 /\ Earlier(hist) # {} THEN Copy(hist, RandomElement(Earlier(hist)))
                                    ELSE IF "gen" \in Kinds /\ RandomElement(1..4) # 1 THEN DrawLively(hist) ELSE DrawAll(hist)) :
       \E k \in (IF Mode = "walk" THEN Pick(1..15) ELSE {1}) :
         LET args == IF form = "pos" THEN Positional(full, k, Core)
                     ELSE IF form = "legacy" THEN Without(full, WinPars \cup CyclePar \cup {"continuous_duty_cycle"}) ELSE full
         IN Declare(u, args) /\ Rec([O("declare", u, 0, args) EXCEPT !.form = form, !.k = k])
  \/ Building /\ Free /\ \E u \in Pick(DOMAIN users) : \E args \in Choice("core", DrawCore(hist)) :
       Construct(u, args) /\ Rec(O("construct", u, 0, args))
  \/ Building /\ \E h \in Pick(Alive), n \in (IF Mode = "walk" THEN {1, 2} ELSE {1}) : \E args \in Choice("wins", DrawWins(hist)) : SetWindows(h, args) /\ Rec(O("windows", objs[h].user, h, args))
  \/ Building /\ \E h \in Pick(Alive), k \in Pick(1..3) : \E args \in Choice("cycle", DrawCycle(k, hist)) : SetCycle(h, k, args) /\ Rec([O("cycle", objs[h].user, h, args) EXCEPT !.k = k])
  \/ Building /\ \E h \in Pick(Alive) : \E args \in Choice("cws", Draw(Cws, hist)) : SetBehaviour(h, args) /\ Rec(O("behaviour", objs[h].user, h, args))
  \/ Building /\ \E h \in Pick(Alive) : AddInstance(h) /\ Rec(O("add", objs[h].user, h, NoArgs))
  \/ "refuse" \in Kinds /\ \E f \in Pick({"user", "list", "appliance"}) : DOMAIN users # {} /\ Unchanged /\ Rec([O("refuse", 1, 0, NoArgs) EXCEPT !.form = f])
  \/ "compare" \in Kinds /\ Cardinality(Alive) >= 2 /\ Unchanged /\ Rec(O("compare", 0, 0, NoArgs))
  \/ "save" \in Kinds /\ Savable /\ \E f \in Pick({"load", "swap", "table"}) :
       /\ objs' = IF f = "swap" THEN [h \in DOMAIN objs |-> IF h \in Kept THEN objs[h] ELSE [objs[h] EXCEPT !.user = 0]] ELSE objs
       /\ UNCHANGED <<users, made, over>> /\ Rec([O("save", 0, 0, NoArgs) EXCEPT !.form = f])
  \/ "gen" \in Kinds /\ \E u \in DOMAIN users : users[u].apps # <<>>
     /\ \E f \in Pick({"usecase", "parallel", "user", "single", "appliance", "maximum", "seeded", "flat"}), k \in Pick(1..4) :
          Unchanged /\ Rec([O("gen", u, 0, NoArgs) EXCEPT !.form = f, !.k = k])
Finish == /\ Mode = "walk" /\ hist # <<>> /\ hist[Len(hist)].op # "end" /\ (Len(hist) = Depth \/ over)
          /\ PrintT("@@SCRIPT " \o ToJson(hist)) /\ hist' = Append(hist, O("end", 0, 0, NoArgs)) /\ UNCHANGED <<users, objs, made, over>>
Next == (Go /\ Len(hist) < Depth /\ Ops) \/ Finish
Spec == Init /\ [][Next]_vars

\* every appliance in a list has a name, belongs to that user and is there once
WellFormed == \A u \in DOMAIN users :
  /\ \A i \in DOMAIN users[u].apps : LET h == users[u].apps[i] IN objs[h].user \in {u, 0} /\ objs[h].par["name"] # ""
  /\ \A i, j \in DOMAIN users[u].apps : i # j => users[u].apps[i] # users[u].apps[j]
\* what is added differs from all that was there; nothing is ever lost or reordered
Grow == [][\A u \in DOMAIN users : /\ IsPrefix(users[u].apps, users'[u].apps)
                                     /\ Len(users'[u].apps) <= Len(users[u].apps) + 1]_vars
\* a call changes at most one appliance
Local == [][Cardinality({h \in DOMAIN objs : objs'[h].par # objs[h].par}) <= 1]_vars
===============================================================================
