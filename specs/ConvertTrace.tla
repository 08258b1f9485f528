------------------------------ MODULE ConvertTrace ------------------------------
(* Recorded conversions: after each one the inputs and the results are those of  *)
(* Convert.                                                                      *)
EXTENDS Convert
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, fs, ev]
VARIABLES m, l
tv == <<fs, state, results, steps, users, objs, made, over, hist, m, l>>
T == Trace[m]
Fn(a) == IF a = <<>> THEN NoArgs ELSE a
App(a) == [a EXCEPT !.args = Fn(@), !.wins = Fn(@), !.beh = Fn(@), !.cyc = [i \in DOMAIN @ |-> [@[i] EXCEPT !.args = Fn(@)]]]
File(f) == [f EXCEPT !.apps = [i \in DOMAIN @ |-> App(@[i])]]
Files(t) == [i \in DOMAIN t.fs |-> File(t.fs[i])]
Places == {<<y[1], y[2]>> : y \in DOMAIN results'}
Wrong(e) ==
  IF e.res # "ok" THEN {"C19." \o e.res}
  ELSE (IF {<<e.xlsx[i].place, e.xlsx[i].stem>> : i \in DOMAIN e.xlsx} # Places THEN {"C19.place"} ELSE {})
    \cup (IF e.other # <<>> THEN {"C19.otherfiles"} ELSE {})
    \cup (IF \E i \in DOMAIN fs : e.altered[i] /\ ~(i \in Range(e.which) /\ Alters(state[i], e.keep)) THEN {"C19.altered"} ELSE {})
    \cup (IF \E i \in Range(e.which) : e.ran[i] # Meaning(fs[i], state'[i].marked) THEN {"C19.input"} ELSE {})
    \cup (IF \E i \in DOMAIN e.xlsx : e.xlsx[i].read /\ LET y == <<e.xlsx[i].place, e.xlsx[i].stem>> IN
             y \in DOMAIN results' /\ e.xlsx[i].users # Meaning(fs[results'[y].file], results'[y].named) THEN {"C19.result"} ELSE {})
TInit == /\ Init /\ m = 1 /\ l = 1 /\ fs = Files(T) /\ state = [i \in DOMAIN fs |-> State0(fs[i])] /\ results = [x \in {} |-> 0] /\ steps = <<>>
Consume ==
  /\ m <= Len(Trace) /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ Convert(COp(e.which, e.out, e.suffix, e.keep, e.how))
     /\ LET w == Wrong(e) IN IF w = {} THEN l' = l + 1
                             ELSE PrintT("@@FAIL " \o ToJson([model |-> T.m, line |-> l, clauses |-> w])) /\ l' = Len(T.ev) + 1
  /\ UNCHANGED <<fs, m>> /\ Rest
NextTrace == /\ m <= Len(Trace) /\ l > Len(T.ev) /\ m' = m + 1 /\ l' = 1 /\ results' = [x \in {} |-> 0] /\ steps' = <<>>
             /\ IF m < Len(Trace) THEN fs' = Files(Trace[m + 1]) /\ state' = [i \in DOMAIN fs' |-> State0(fs'[i])] ELSE UNCHANGED <<fs, state>>
             /\ Rest
TSpec == TInit /\ [][Consume \/ NextTrace]_tv
Finished == m > Len(Trace) => PrintT("@@STAT " \o ToJson([programs |-> Len(Trace)]))
===============================================================================
