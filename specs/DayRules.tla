------------------------------- MODULE DayRules -------------------------------
(* What one day of one appliance may look like: acceptance rules over the      *)
(* finished profile, in closed form.  ApplianceDay.tla specifies how a profile *)
(* comes about step by step; TLC checks there that every reachable profile is  *)
(* accepted by these rules.  The same rules judge full-size recorded profiles. *)
(*                                                                             *)
(* A profile is a sequence of runs <<s, e, v>>: minutes s..e-1 all have power  *)
(* v (integer milliwatts, v > 0), maximal and in order; other minutes are 0.   *)
(* The standby marker of an idle minute in a window is 1 mW.                   *)
(*                                                                             *)
(* Configuration c:                                                            *)
(*   day          minutes per day                                              *)
(*   win, rv      three windows <<a,b>> (unused: <<0,0>>), edge variability    *)
(*   tlo, thi     range of the drawn functioning time                          *)
(*   fc, num      minimum cycle, number of units                               *)
(*   fixed, flat  BOOLEAN                                                      *)
(*   p, th        rating of the day (mW), power variability in percent         *)
(*   kon, koff    sequences of unit counts possible on and off peak            *)
(*   pk           <<first, last>> minute of the peak time range                *)
(*   cyc          sequence of duty cycles [w: sequence of windows,             *)
(*                a: range of part 1 length, pa: its power, b, pb: part 2,     *)
(*                sw: parts may be swapped]                                    *)
(*   cont         duty cycle repeats within an event                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MARK == 9                       \* anything above is "on"
MinCycle(c) == Max2(1, c.fc)
Cap(r, T) == IF 100 * r > 99 * T THEN (99 * T) \div 100 ELSE r
RSum(runs) == FoldLeft(LAMBDA acc, r : acc + (r[2] - r[1]), 0, runs)

\* contiguous blocks of a sequence of runs, as <<s, e>>
Blocks(runs) ==
  FoldLeft(LAMBDA acc, r :
             IF acc # <<>> /\ acc[Len(acc)][2] = r[1]
             THEN [acc EXCEPT ![Len(acc)] = <<@[1], r[2]>>]
             ELSE Append(acc, <<r[1], r[2]>>), <<>>, runs)

\* union of a set of intervals as a sequence of disjoint, non touching intervals
MergeIv(S) ==
  LET ne == {iv \in S : iv[1] < iv[2]}
      srt == SetToSortSeq(ne, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
  IN FoldLeft(LAMBDA acc, r :
                IF acc # <<>> /\ acc[Len(acc)][2] >= r[1]
                THEN [acc EXCEPT ![Len(acc)] = <<@[1], Max2(@[2], r[2])>>]
                ELSE Append(acc, r), <<>>, srt)

Used(c) == {i \in 1..3 : c.win[i][1] < c.win[i][2]}
EnlargedIv(c) == {<<Max2(0, c.win[i][1] - c.rv[i]), Min2(c.day, c.win[i][2] + c.rv[i])>> : i \in Used(c)}
CoreIv(c) == {<<Max2(0, c.win[i][1] + c.rv[i]), Min2(c.day, c.win[i][2] - c.rv[i])>> : i \in Used(c)}
IvLen(seq) == FoldLeft(LAMBDA acc, r : acc + (r[2] - r[1]), 0, seq)
TMin(c) == IvLen(MergeIv(CoreIv(c)))
TMax(c) == IvLen(MergeIv(EnlargedIv(c)))
Rigid(c) == \A i \in 1..3 : c.rv[i] = 0
Within(iv, S) == \E x \in S : x[1] <= iv[1] /\ iv[2] <= x[2]

\* places where one free stretch may end and another one start without a gap
Junctions(c) ==
  LET En == [i \in Used(c) |-> <<Max2(0, c.win[i][1] - c.rv[i]), Min2(c.day, c.win[i][2] + c.rv[i])>>]
  IN {<<i, j>> \in Used(c) \X Used(c) : i < j /\ En[i][1] <= En[j][2] /\ En[j][1] <= En[i][2]}

\* exact ends of the free stretches when windows do not vary (later window clipped)
HardCuts(c) ==
  IF ~Rigid(c) THEN {}
  ELSE LET ne == {c.win[i] : i \in Used(c)}
           srt == SetToSortSeq(ne, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
           st == FoldLeft(LAMBDA acc, w :
                     LET s == Max2(w[1], acc[1]) e == Max2(s, w[2])
                     IN <<e, IF s < e THEN acc[2] \cup {s, e} ELSE acc[2]>>, <<0, {}>>, srt)
       IN st[2]

\* cut a sequence of <<s,e,...>> runs at the given positions
CutRun(r, cuts) ==
  LET in == SetToSortSeq({x \in cuts : r[1] < x /\ x < r[2]} \cup {r[1], r[2]}, LAMBDA x, y : x < y)
  IN [i \in 1..(Len(in) - 1) |-> <<in[i], in[i + 1], r[3]>>]
CutRuns(runs, cuts) ==
  IF cuts = {} THEN runs ELSE FoldLeft(LAMBDA acc, r : acc \o CutRun(r, cuts), <<>>, runs)

\* a range lo..hi of minutes touches the window w (upper limit included); unset windows never match
Touches(lo, hi, w) == w[1] # w[2] /\ ~(hi < w[1]) /\ ~(lo > w[2])
TouchesCyc(c, i, lo, hi) == \E x \in 1..Len(c.cyc[i].w) : Touches(lo, hi, c.cyc[i].w[x])
\* the duty cycle selected for an event: the first one it touches, 0 if none
Sel(c, s, d) ==
  LET T == {i \in 1..Len(c.cyc) : TouchesCyc(c, i, s, s + d - 1)}
  IN IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : i <= j
OnPeak(c, lo, hi) == ~(hi < c.pk[1]) /\ ~(lo > c.pk[2])

-------------------------------------------------------------------------------
(* windows *)
C01Fails(c, runs) ==
  LET segs == Blocks(runs)
      en == ToSet(MergeIv(EnlargedIv(c)))
      core == MergeIv(CoreIv(c))
      U == Used(c)
  IN (IF \E i \in 1..Len(segs) : ~Within(segs[i], en) THEN {"C01.outside"} ELSE {})
     \cup (IF runs # <<>> /\ \E i \in 1..Len(core) : ~Within(core[i], ToSet(segs)) THEN {"C01.core"} ELSE {})
     \cup (IF \E k \in 1..Len(segs) :
                \/ \A i \in U : ~(Max2(0, c.win[i][1] - c.rv[i]) <= segs[k][1] /\ segs[k][1] <= c.win[i][1] + c.rv[i])
                \/ \A i \in U : ~(c.win[i][2] - c.rv[i] <= segs[k][2] /\ segs[k][2] <= Min2(c.day, c.win[i][2] + c.rv[i]))
           THEN {"C01.edge"} ELSE {})
     \cup (IF Len(segs) > Cardinality(U) THEN {"C01.segments"} ELSE {})
     \cup (IF \E i \in 1..Len(runs) : runs[i][3] <= MARK /\ (runs[i][3] # 1 \/ c.flat) THEN {"C01.marker"} ELSE {})

-------------------------------------------------------------------------------
(* on-time budget *)
OnRuns(runs) == SelectSeq(runs, LAMBDA r : r[3] > MARK)
IdleRuns(runs) == SelectSeq(runs, LAMBDA r : r[3] <= MARK)
OnTime(runs) == RSum(OnRuns(runs))
BudgetMax(c, T) == Cap(Max2(c.fc, c.thi), T)
BudgetMin(c, T) == Cap(Max2(c.fc, c.tlo), T)

\* no free stretch of an idle gap [s,e) can host another event of minimum length
GapExhausted(c, s, e) ==
  LET f == MinCycle(c)
      len == e - s
      nj == IF Rigid(c) THEN 0 ELSE Cardinality(Junctions(c))
  IN \/ len < f
     \/ nj > 0 /\ len <= (Min2(nj, 2) + 1) * (f - 1)
     \/ c.cyc # <<>> /\ \A x \in s..(e - f) : Sel(c, x, f) = 0
Exhausted(c, runs) ==
  LET idle == CutRuns(IdleRuns(runs), HardCuts(c))
  IN \A i \in 1..Len(idle) : GapExhausted(c, idle[i][1], idle[i][2])

C02Fails(c, runs) ==
  LET on == OnTime(runs) T == RSum(runs)
  IN (IF on > BudgetMax(c, T) THEN {"C02.over"} ELSE {})
     \cup (IF on < BudgetMin(c, T) /\ ~Exhausted(c, runs) THEN {"C02.under"} ELSE {})

-------------------------------------------------------------------------------
(* events, without duty cycles: every maximal piece of constant power consists *)
(* of whole events; at most one may be shorter than the minimum, and only when *)
(* it was cut to end on the budget                                             *)
C03Fails(c, runs) ==
  LET pieces == CutRuns(OnRuns(runs), HardCuts(c))
      short == {i \in 1..Len(pieces) : pieces[i][2] - pieces[i][1] < MinCycle(c)}
      on == OnTime(runs) T == RSum(runs)
  IN (IF Cardinality(short) > 1 THEN {"C03.short"} ELSE {})
     \cup (IF short # {} /\ on < BudgetMin(c, T) THEN {"C03.shortNotLast"} ELSE {})

(* power levels, without duty cycles *)
UnitSet(c) == ToSet(c.kon) \cup ToSet(c.koff)
LevelOK(c, v, k) ==
  IF c.th = 0 THEN v = k * c.p
  ELSE /\ 100 * (v + 1) >= k * c.p * (100 - c.th)
       /\ 100 * (v - 1) <= k * c.p * (100 + c.th)
Units(c, v) == {k \in UnitSet(c) : LevelOK(c, v, k)}
C04Fails(c, runs) ==
  LET on == OnRuns(runs)
  IN IF \E i \in 1..Len(on) : Units(c, on[i][3]) = {} THEN {"C04.level"} ELSE {}

C05Fails(c, runs) ==
  LET on == OnRuns(runs)
      ok(r) == \/ OnPeak(c, r[1], r[2] - 1) /\ Units(c, r[3]) \cap ToSet(c.kon) # {}
               \/ ~OnPeak(c, r[1], r[2] - 1) /\ Units(c, r[3]) \cap ToSet(c.koff) # {}
  IN IF \E i \in 1..Len(on) : ~ok(on[i]) THEN {"C05.peak"} ELSE {}

C07Fails(c, runs) ==
  IF \E i \in 1..Len(runs) : runs[i][3] # c.num * c.p THEN {"C07.level"} ELSE {}

-------------------------------------------------------------------------------
(* duty cycles *)
\* possible concrete cycles of cycle i: sequences of powers, one set per day
Rep(n, v) == IF n <= 0 THEN <<>> ELSE [x \in 1..n |-> v]
CycSeqs(y) ==
  LET plain == {Rep(n, y.pa) \o Rep(m, y.pb) : n \in y.a[1]..y.a[2], m \in y.b[1]..y.b[2]}
      swapd == {Rep(m, y.pb) \o Rep(n, y.pa) : n \in y.a[1]..y.a[2], m \in y.b[1]..y.b[2]}
  IN IF y.sw THEN plain \cup swapd ELSE plain
\* one choice of concrete cycles for the day
RECURSIVE CycChoices(_, _)
CycChoices(c, i) == IF i = 0 THEN {<<>>} ELSE {Append(h, q) : h \in CycChoices(c, i - 1), q \in CycSeqs(c.cyc[i])}

CycLevel(c, v, k, pw) ==
  IF c.th = 0 THEN v = k * pw
  ELSE /\ 100 * (v + 1) >= k * pw * (100 - c.th)
       /\ 100 * (v - 1) <= k * pw * (100 + c.th)

\* number of minutes from position i on which replay cycle q with k units
RECURSIVE MatchLen(_, _, _, _, _, _)
MatchLen(c, vals, i, q, k, m) ==
  IF i + m > Len(vals) \/ ~CycLevel(c, vals[i + m], k, q[(m % Len(q)) + 1]) THEN m
  ELSE IF c.cont = FALSE /\ m + 1 >= Len(q) THEN m + 1
  ELSE MatchLen(c, vals, i, q, k, m + 1)

\* cycle j can have been selected for an event from minute s of which len minutes were
\* kept; exact: the event was not shortened
SelPossible(c, j, s, len, exact, stop) ==
  IF exact THEN Sel(c, s, len) = j
  ELSE \E d \in ({len} \cup {c.cyc[j].w[x][1] - s + 1 : x \in 1..Len(c.cyc[j].w)}) :
         d >= len /\ (s + d <= stop \/ d = len) /\ Sel(c, s, d) = j

\* states <<position, short events used>> reachable when parsing the block vals (first minute s)
StepsFrom(c, Q, vals, s, i, sh, stop) ==
  LET f == MinCycle(c) IN
  UNION { LET q == Q[j]
              m == MatchLen(c, vals, i, q, k, 0)
              s0 == s + i - 1
              whole == IF c.cont THEN {d \in f..m : SelPossible(c, j, s0, d, TRUE, stop)}
                       ELSE {d \in 1..m : \/ d >= f /\ d <= Len(q) /\ SelPossible(c, j, s0, d, d < Len(q), stop)
                                          \/ d = Len(q) /\ d < f /\ SelPossible(c, j, s0, f, FALSE, stop)}
              part == IF sh > 0 THEN {}
                      ELSE {d \in 1..m : SelPossible(c, j, s0, d, FALSE, stop)}
          IN {<<i + d, sh>> : d \in whole} \cup {<<i + d, 1>> : d \in part}
        : j \in {x \in 1..Len(Q) : Len(Q[x]) > 0}, k \in UnitSet(c) }

RECURSIVE Parse(_, _, _, _, _, _, _)
Parse(c, Q, vals, s, i, R, stop) ==
  IF i > Len(vals) THEN R
  ELSE LET here == {r \in R : r[1] = i}
           nxt == UNION {StepsFrom(c, Q, vals, s, i, r[2], stop) : r \in here}
       IN Parse(c, Q, vals, s, i + 1, R \cup nxt, stop)

\* 0, 1: shortened events needed to explain the block; 2: cannot be explained
BlockShorts(c, Q, vals, s, stop) ==
  LET R == Parse(c, Q, vals, s, 1, {<<1, 0>>}, stop)
      E == {r \in R : r[1] = Len(vals) + 1}
  IN IF \E r \in E : r[2] = 0 THEN 0 ELSE IF E # {} THEN 1 ELSE 2

BlockVals(on, b) ==
  FoldLeft(LAMBDA acc, r : acc \o Rep(r[2] - r[1], r[3]), <<>>,
           SelectSeq(on, LAMBDA r : r[1] >= b[1] /\ r[2] <= b[2]))

CutBlocks(runs, cuts) ==  \* on-blocks, cut at known ends of free stretches
  LET bl == Blocks(OnRuns(runs))
  IN FoldLeft(LAMBDA acc, b : acc \o [x \in 1..Len(CutRun(<<b[1], b[2], 0>>, cuts)) |->
                                       <<CutRun(<<b[1], b[2], 0>>, cuts)[x][1], CutRun(<<b[1], b[2], 0>>, cuts)[x][2]>>],
              <<>>, bl)

C08Fails(c, runs) ==
  LET cuts == HardCuts(c)
      on == CutRuns(OnRuns(runs), cuts)
      bl == CutBlocks(runs, cuts)
      vals == [x \in 1..Len(bl) |-> BlockVals(on, bl[x])]
      segs == Blocks(runs)
      stopOf(b) == LET g == CHOOSE g \in ToSet(segs) : g[1] <= b[1] /\ b[2] <= g[2] IN g[2]
      \* which concrete cycles explain the whole day with at most one shortened event
      ok(Q) == LET tot == FoldLeft(LAMBDA acc, x : IF acc > 1 THEN acc
                                      ELSE acc + BlockShorts(c, Q, vals[x], bl[x][1], stopOf(bl[x])),
                                   0, [x \in 1..Len(bl) |-> x])
               IN tot <= 1
      levels == {on[i][3] : i \in 1..Len(on)}
  IN (IF on # <<>> /\ ~\E Q \in CycChoices(c, Len(c.cyc)) : ok(Q) THEN {"C08.replay"} ELSE {})
     \cup (IF c.num = 1 /\ Cardinality(levels) > 2 * Len(c.cyc) THEN {"C08.oneSetPerDay"} ELSE {})

-------------------------------------------------------------------------------
(* all rules for a day on which the appliance is used *)
DayFails(c, runs) ==
  C01Fails(c, runs)
  \cup (IF c.flat THEN C07Fails(c, runs)
        ELSE C02Fails(c, runs)
             \cup (IF c.cyc # <<>> THEN C08Fails(c, runs)
                   ELSE C03Fails(c, runs) \cup C04Fails(c, runs) \cup C05Fails(c, runs)))

\* the documented error: the minimum cycle does not fit into the available time
ErrorPossible(c) == (99 * TMin(c)) \div 100 < c.fc
ErrorCertain(c) == (99 * TMax(c)) \div 100 < c.fc
===============================================================================
