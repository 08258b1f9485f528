-------------------------------- MODULE Convert --------------------------------
(* Legacy Python inputs converted to spreadsheets, wherever they lie and any    *)
(* number of times: what happens to the inputs, what is written, what it means. *)
EXTENDS Model
\* files: seq of [users, apps, aliases, look, place, stem, helper]
\*   helper: the numbers of users are 20 + place, which a module in the folder of the file provides to those which import it
\*   users: seq of [name, n, pref]; apps: seq of [u, form, args, wins, cyc: seq of [k, args], beh, var] ("" for no variable)
\*   aliases: seq of [var, app]: further variables bound at the end
\* state of the inputs and of the folders with results
VARIABLES fs, state, results, steps
cvars == <<fs, state, results, steps, users, objs, made, over, hist>>

\* the appliances of user u of file f, without names of variables: seq of [app, par]
One(list, ap, i) ==
  LET a0 == Built(ap.args)
      add == a0 \notin {list[j].par : j \in DOMAIN list}
      a1 == IF a0["name"] = "" THEN [a0 EXCEPT !["name"] = "appliance_" \o ToString(Len(list) + 1)] ELSE a0
      a2 == IF ap.wins = NoArgs THEN a1 ELSE WinsCw(Wins(a1, ap.wins))
      a3 == FoldLeft(LAMBDA a, c : Cycle(a, c.k, c.args), a2, ap.cyc)
      a4 == IF ap.beh = NoArgs THEN a3 ELSE Behaviour(a3, ap.beh)
  IN IF add THEN Append(list, [app |-> i, par |-> a4]) ELSE list
Apps(f, u) == LET mine == SelectSeq([i \in 1..Len(f.apps) |-> i], LAMBDA i : f.apps[i].u = u) IN
              FoldLeft(LAMBDA list, i : One(list, f.apps[i], i), <<>>, mine)
\* variables in the order in which they come into being, with the appliance they name in the end
Bindings(f) == [i \in 1..Len(f.apps) |-> [var |-> f.apps[i].var, app |-> i]] \o f.aliases
VarOrder(f) == LET b == Bindings(f)
                   first == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i].var # "" /\ \A j \in 1..(i - 1) : b[j].var # b[i].var)
               IN [k \in 1..Len(first) |-> b[first[k]].var]
Bound(f, v) == LET b == Bindings(f)
                   is == {i \in DOMAIN b : b[i].var = v} IN b[CHOOSE i \in is : \A j \in is : j <= i].app
VarName(f, i, old) == LET vs == SelectSeq(VarOrder(f), LAMBDA v : Bound(f, v) = i) IN IF vs = <<>> THEN old ELSE Last(vs)
Meaning(f, named) ==
  [u \in DOMAIN f.users |-> [name |-> f.users[u].name, n |-> f.users[u].n, pref |-> f.users[u].pref,
     apps |-> LET l == Apps(f, u) IN [k \in DOMAIN l |-> IF named THEN [l[k].par EXCEPT !["name"] = VarName(f, l[k].app, @)] ELSE l[k].par]]]
Ok(f) == \A named \in BOOLEAN : LET w == Meaning(f, named) IN \A u \in DOMAIN w :
           /\ w[u].apps # <<>> /\ \A i \in DOMAIN w[u].apps : Complete(w[u].apps[i])
           /\ \A i, j \in DOMAIN w[u].apps : i # j => w[u].apps[i] # w[u].apps[j]
AllWinsOk(f) == \A i \in DOMAIN f.apps : f.apps[i].wins # NoArgs => WinsOk(Built(f.apps[i].args), f.apps[i].wins)

\* [old: imports to be adapted, marked: names are given by the file]
Legacy_(f) == f.look \in {"core", "two", "comment", "inside"}
State0(f) == [old |-> Legacy_(f), marked |-> FALSE]
Converted(s, keep) == [old |-> FALSE, marked |-> s.marked \/ keep]
\* whether converting alters the text
Alters(s, keep) == s.old \/ (keep /\ ~s.marked)
\* where the result goes: the folder of the file (-1) or the given one, the name of the file with the suffix
Target(f, out, suffix) == <<IF out = 0 THEN f.place ELSE 100 + out, f.stem \o suffix>>

COp(which, out, suffix, keep, how) == [which |-> which, out |-> out, suffix |-> suffix, keep |-> keep, how |-> how]
\* one after the other
DoConvert(s, r, op) ==
  LET F(x, i) == [s |-> [x.s EXCEPT ![i] = Converted(@, op.keep)],
                  r |-> [y \in {Target(fs[i], op.out, op.suffix)} |-> [file |-> i, named |-> Converted(x.s[i], op.keep).marked]] @@ x.r]
  IN FoldLeft(F, [s |-> s, r |-> r], op.which)
Convert(op) == LET x == DoConvert(state, results, op) IN state' = x.s /\ results' = x.r /\ steps' = Append(steps, op)

\* --------------------------------------------------------------------------
\* random files
Sub(S, x) == RandomElement(S)
DrawUsers(x) == LET k == Sub(1..3, x) IN [i \in 1..k |-> [name |-> <<"high income", "b 2", "Zz">>[i], n |-> Sub({"1", "11"}, i), pref |-> Sub({"0", "3"}, i)]]
DrawApp(nu, i) ==
  LET form == Sub({"legacy", "kw"}, i)
      core0 == Without(Draw(Range(Core), i), {"func_time"}) @@ (IF Sub(1..3, i) = 1 THEN ("func_time" :> RandomElement({"1", "45", "0"})) ELSE NoArgs)
      core1 == IF form = "legacy" THEN Without(core0, {"continuous_duty_cycle"}) ELSE core0
      core == IF Sub(1..3, i) # 1 THEN Without(core1, {"name"}) ELSE core1
      wins == [p \in WinPars |-> IF p = "random_var_w" THEN RandomElement(Values(p)) ELSE RandomElement({"[0,300]", "[500,700]", "[720,1440]", "[0,1440]"})]
      cyc == [k \in 1..Sub({0, 0, 1, 2, 3}, i) |-> [k |-> k, args |-> DrawCycle(k, i)]]
  IN [u |-> IF i <= nu THEN i ELSE Sub(1..nu, i), form |-> form, args |-> core, wins |-> wins, cyc |-> cyc,
      beh |-> IF Sub(1..4, i) = 1 THEN Draw(Cws, i) ELSE NoArgs,
      var |-> IF Sub(1..8, i) = 1 THEN "" ELSE IF Sub(1..8, i) = 1 THEN "shared" ELSE IF Sub(1..12, i) = 1 THEN Sub({"i", "a", "x"}, i) ELSE "app_" \o ToString(i)]
Looks == {"core", "two", "comment", "inside", "ramp", "short", "inline"}
DrawFile(x, id) ==
  LET us0 == DrawUsers(x)
      place == Sub(1..4, x)
      helper == Sub(1..3, x) = 1
      us == [i \in DOMAIN us0 |-> IF helper THEN [us0[i] EXCEPT !.n = ToString(20 + place)] ELSE us0[i]]
      apps == [i \in 1..(Len(us) + Sub(0..3, x)) |-> DrawApp(Len(us), i)]
  IN [users |-> us, apps |-> apps, aliases |-> IF Sub(1..4, x) = 1 THEN <<[var |-> Sub({"other", "app_1"}, x), app |-> 1]>> ELSE <<>>,
      look |-> Sub(Looks, x), place |-> place, helper |-> helper, stem |-> Sub({"input_file_1", "village", "my.v2", "1-x", "json"}, x)]
DrawOp(k, x) == LET which == IF Sub(1..3, x) = 1 THEN Sub({<<1>>, IF k = 2 THEN <<1, 2>> ELSE <<1>>, IF k = 2 THEN <<2, 1>> ELSE <<1>>}, x) ELSE <<Sub(1..k, x)>>
                    how == IF Len(which) > 1 THEN "cli" ELSE Sub({"call", "call", "cli"}, x)
                IN COp(which, Sub({0, 0, 1, 2}, x), Sub({"", "_new", "2", ".v3"}, x), how = "cli" \/ Sub(1..3, x) # 1, how)
CInit == Init /\ results = [x \in {} |-> 0] /\ steps = <<>>
         /\ (IF Mode = "check" THEN fs \in {<<[look |-> l1, place |-> 1, stem |-> "x"], [look |-> l2, place |-> p, stem |-> s]>> :
                                             l1 \in {"core", "ramp"}, l2 \in {"core", "ramp"}, p \in {1, 2}, s \in {"x", "y"}} /\ (fs[1].place # fs[2].place \/ fs[1].stem # fs[2].stem)
             ELSE fs = <<>>)
         /\ state = (IF Mode = "check" THEN [i \in DOMAIN fs |-> State0(fs[i])] ELSE <<>>)
Rest == UNCHANGED <<users, objs, made, over, hist>>
NewFiles == fs = <<>> /\ \E k \in {RandomElement(1..2)} : \E g \in {[i \in 1..k |-> DrawFile(i, i)]} :
              /\ \A i \in 1..k : AllWinsOk(g[i]) /\ Ok(g[i])
              /\ \A i, j \in 1..k : i # j => g[i].place # g[j].place \/ g[i].stem # g[j].stem
              /\ fs' = g /\ state' = [i \in 1..k |-> State0(g[i])] /\ UNCHANGED <<results, steps>>
Next1 == IF Mode = "check"
         THEN /\ Len(steps) < Depth
              /\ \E w \in {<<1>>, <<2>>, <<1, 2>>}, o \in {0, 1}, s \in {"", "y"}, keep \in BOOLEAN : Convert(COp(w, o, s, keep, "call")) /\ UNCHANGED fs
         ELSE IF fs = <<>> THEN NewFiles
         ELSE IF Len(steps) < Depth /\ RandomElement(1..4) # 1 THEN (\E op \in {DrawOp(Len(fs), steps)} : Convert(op)) /\ UNCHANGED fs
         ELSE /\ Len(steps) > 0 /\ Len(steps) < 100 /\ PrintT("@@SCRIPT " \o ToJson([fs |-> fs, ops |-> steps]))
              /\ steps' = [i \in 1..100 |-> 0] /\ UNCHANGED <<fs, state, results>>
CNext == Next1 /\ Rest
CSpec == CInit /\ [][CNext]_cvars

\* converting once more changes nothing
Settled == \A i \in DOMAIN state : Converted(Converted(state[i], TRUE), TRUE) = Converted(state[i], TRUE) /\ ~Alters(Converted(state[i], TRUE), TRUE)
\* names once given remain; imports once adapted remain
Keeps == [][\A i \in DOMAIN state : (state[i].marked => state'[i].marked) /\ (~state[i].old => ~state'[i].old)]_cvars
\* a text is altered at most twice, once for the imports and once for the names
Twice == \A i \in DOMAIN fs : LET sts == {k \in 1..Len(steps) : i \in Range(steps[k].which)} IN sts # {} => ~state[i].old
Written == \A k \in DOMAIN steps : \A i \in Range(steps[k].which) : Target(fs[i], steps[k].out, steps[k].suffix) \in DOMAIN results
===============================================================================
