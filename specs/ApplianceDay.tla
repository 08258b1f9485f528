----------------------------- MODULE ApplianceDay -----------------------------
(* One day of one appliance, step by step: the day is skipped or the windows   *)
(* are drawn, the time budget is drawn, a flat appliance fills its windows, any*)
(* other is switched on in free stretches until the budget is used up or no    *)
(* free stretch can host another event.                                        *)
EXTENDS DayRules, TLC

CONSTANT Cfgs       \* sequence of configurations (see DayRules), plus
                    \*   skip, run   whether the day may be skipped / may be run
VARIABLES cfg,      \* configuration of this behaviour
          pc,       \* "start" "time" "fill" "on" "done" "error"
          free,     \* set of free stretches <<s,e>>
          win,      \* drawn windows (disjoint stretches)
          rt,       \* time budget of the day
          used,     \* time switched on so far
          cyc,      \* concrete duty cycles of the day
          prof,     \* minute -> power
          evs       \* events placed <<start, length, units, cycle, drawn length>>
vars == <<cfg, pc, free, win, rt, used, cyc, prof, evs>>
C == cfg
Hull(c) == UNION {(Max2(0, c.win[i][1] - c.rv[i]))..(Min2(c.day, c.win[i][2] + c.rv[i]) - 1) : i \in Used(c)}

Init == /\ cfg \in ToSet(Cfgs)
        /\ pc = "start" /\ free = {} /\ win = {} /\ rt = 0 /\ used = 0 /\ cyc = <<>>
        /\ prof = [m \in Hull(cfg) |-> 0]
        /\ evs = {}

Skip == /\ pc = "start" /\ C.skip
        /\ pc' = "done"
        /\ UNCHANGED <<cfg, free, win, rt, used, cyc, prof, evs>>

RandWin(c, i) ==
  {LET s == Max2(0, a) e == Min2(c.day, b) IN <<s, Max2(s, e)>> :
     a \in (c.win[i][1] - c.rv[i])..(c.win[i][1] + c.rv[i]),
     b \in (c.win[i][2] - c.rv[i])..(c.win[i][2] + c.rv[i])}
\* windows in order of their start, later ones clipped to what is left of them
Disjoint(ws) ==
  LET srt == SortSeq(ws, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
      st == FoldLeft(LAMBDA acc, w : LET s == Max2(w[1], acc[1]) e == Max2(s, w[2])
                                     IN <<e, IF s < e THEN acc[2] \cup {<<s, e>>} ELSE acc[2]>>,
                     <<0, {}>>, srt)
  IN st[2]
Total(S) == FoldSet(LAMBDA iv, acc : acc + (iv[2] - iv[1]), 0, S)

PickWindows ==
  /\ pc = "start" /\ C.run
  /\ \E w1 \in RandWin(C, 1), w2 \in RandWin(C, 2), w3 \in RandWin(C, 3) :
       win' = Disjoint(<<w1, w2, w3>>)
  /\ pc' = "time"
  /\ UNCHANGED <<cfg, free, rt, used, cyc, prof, evs>>

PickTime ==
  /\ pc = "time"
  /\ \E t \in C.tlo..C.thi :
       LET r == Cap(Max2(t, C.fc), Total(win))
       IN IF r < C.fc THEN pc' = "error" /\ UNCHANGED <<rt, free, prof>>
          ELSE /\ rt' = r
               /\ pc' = IF C.flat THEN "fill" ELSE "on"
               /\ free' = win
               /\ prof' = IF C.flat THEN prof
                          ELSE [m \in DOMAIN prof |-> IF \E w \in win : w[1] <= m /\ m < w[2] THEN 1 ELSE 0]
  /\ IF pc' = "on" /\ C.cyc # <<>> THEN cyc' \in CycChoices(C, Len(C.cyc)) ELSE cyc' = <<>>
  /\ UNCHANGED <<cfg, win, used, evs>>

Fill ==
  /\ pc = "fill"
  /\ prof' = [m \in DOMAIN prof |-> IF \E w \in win : w[1] <= m /\ m < w[2] THEN C.num * C.p ELSE 0]
  /\ pc' = "done"
  /\ UNCHANGED <<cfg, free, win, rt, used, cyc, evs>>

Starts(F) == UNION {iv[1]..(iv[2] - MinCycle(C)) : iv \in F}
SpotEnd(F, s) == (CHOOSE iv \in F : iv[1] <= s /\ s < iv[2])[2]
\* durations which can be drawn: the upper limit itself only in the degenerate case
Durations(F, s) ==
  LET d == Min2(rt, SpotEnd(F, s) - s) f == MinCycle(C)
  IN IF d > f THEN f..(d - 1) ELSE IF d = f THEN {f} ELSE {}
Accepted(s, d) == C.cyc = <<>> \/ Sel(C, s, d) # 0
Shortened(s, d) ==
  IF C.cyc = <<>> \/ C.cont THEN d
  ELSE LET L == Len(cyc[Sel(C, s, d)]) IN IF L > 0 /\ L < d THEN L ELSE d
UnitsFor(s, d) == IF OnPeak(C, s, s + d - 1) THEN ToSet(C.kon) ELSE ToSet(C.koff)
Without(F, s, d) ==
  UNION {IF iv[1] <= s /\ s < iv[2]
         THEN {x \in {<<iv[1], s>>, <<s + d, iv[2]>>} : x[1] < x[2]}
         ELSE {iv} : iv \in F}

SwitchOn ==
  /\ pc = "on" /\ used < rt
  /\ \E s \in Starts(free) : \E d0 \in Durations(free, s) :
       /\ Accepted(s, d0)
       /\ LET d1 == Shortened(s, d0)
              d == Min2(d1, rt - used)
              j == IF C.cyc = <<>> THEN 0 ELSE Sel(C, s, d0)
          IN \E k \in UnitsFor(s, d) :
               /\ prof' = [m \in DOMAIN prof |->
                            IF s <= m /\ m < s + d
                            THEN IF j = 0 THEN k * C.p
                                 ELSE IF Len(cyc[j]) = 0 THEN prof[m]
                                 ELSE k * cyc[j][((m - s) % Len(cyc[j])) + 1]
                            ELSE prof[m]]
               /\ free' = Without(free, s, d)
               /\ used' = used + d
               /\ evs' = evs \cup {<<s, d, k, j, d0>>}
  /\ UNCHANGED <<cfg, pc, win, rt, cyc>>

\* the budget is used up, or every start would be refused
Stop ==
  /\ pc = "on"
  /\ \/ used = rt
     \/ \A s \in Starts(free) : ~Accepted(s, MinCycle(C)) \/ Durations(free, s) = {}
  /\ pc' = "done"
  /\ UNCHANGED <<cfg, free, win, rt, used, cyc, prof, evs>>

Next == Skip \/ PickWindows \/ PickTime \/ Fill \/ SwitchOn \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-------------------------------------------------------------------------------
InWin(m) == \E w \in win : w[1] <= m /\ m < w[2]
On(m) == prof[m] > MARK
TypeOK == /\ pc \in {"start", "time", "fill", "on", "done", "error"}
          /\ used \in 0..rt
Confined == \A m \in DOMAIN prof : prof[m] # 0 => InWin(m)                    \* C01
EdgesOK == \A w \in win : \E i \in 1..3 :
              /\ w[1] >= Max2(0, C.win[i][1] - C.rv[i]) \/ \E v \in win : v[2] = w[1]
              /\ 0 <= w[1] /\ w[2] <= C.day
Idle == pc = "on" => \A m \in DOMAIN prof : InWin(m) /\ (\A e \in evs : m < e[1] \/ m >= e[1] + e[2]) => prof[m] = 1
BudgetOK == pc \in {"on", "done"} => used <= rt /\ 100 * rt <= 99 * Total(win)  \* C02
OnTimeIsUsed == pc = "done" /\ ~C.flat /\ rt > 0 /\ C.cyc = <<>> /\ C.num > 0 => Cardinality({m \in DOMAIN prof : On(m)}) = used
Missed == pc = "done" /\ ~C.flat /\ used < rt =>                              \* C02
            \A s \in Starts(free) : ~Accepted(s, MinCycle(C)) \/ Durations(free, s) = {}
Disj == \A e, f \in evs : e # f => e[1] + e[2] <= f[1] \/ f[1] + f[2] <= e[1] \* C03
NoStraddle == \A e \in evs : \E w \in win : w[1] <= e[1] /\ e[1] + e[2] <= w[2]
LongEnough == LET short == {e \in evs : e[2] < MinCycle(C) /\ (e[4] = 0 \/ e[2] # Len(cyc[e[4]]))}
              IN Cardinality(short) <= 1 /\ (short # {} => used = rt)
WholeUnits == C.cyc = <<>> => \A e \in evs : e[3] \in UnitSet(C) /\ prof[e[1]] = e[3] * C.p   \* C04
PeakRule == \A e \in evs : e[3] \in UnitsFor(e[1], e[2])                      \* C05
CycleRule == C.cyc # <<>> => \A e \in evs : e[4] # 0 /\ TouchesCyc(C, e[4], e[1], e[1] + e[5] - 1)  \* C08
\* the free stretches are exactly the window minutes without an event
FreeOK == pc = "on" => {m \in DOMAIN prof : \E f \in free : f[1] <= m /\ m < f[2]}
                      = {m \in DOMAIN prof : InWin(m) /\ \A e \in evs : m < e[1] \/ m >= e[1] + e[2]}

\* runs of a finished profile
RunsOf(p) ==
  LET ms == SetToSortSeq({m \in DOMAIN p : p[m] # 0}, LAMBDA x, y : x < y)
  IN FoldLeft(LAMBDA acc, m :
       IF acc # <<>> /\ acc[Len(acc)][2] = m /\ acc[Len(acc)][3] = p[m]
       THEN [acc EXCEPT ![Len(acc)] = <<@[1], m + 1, @[3]>>]
       ELSE Append(acc, <<m, m + 1, p[m]>>), <<>>, ms)
\* the closed-form rules accept everything that can come about
Explained == pc = "done" /\ win # {} /\ (C.flat \/ C.num > 0) => DayFails(C, RunsOf(prof)) = {}
ErrorOK == /\ pc = "error" => ErrorPossible(C)
           /\ pc \in {"on", "fill"} => ~ErrorCertain(C)
Terminates == <>(pc \in {"done", "error"})
===============================================================================
