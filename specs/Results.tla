--------------------------------- MODULE Results ---------------------------------
(* Result tables and what can be done with them.  Minutes are counted from the    *)
(* midnight before the first one; values are integers, operations whose results   *)
(* would not be are not enabled.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Randomization
CONSTANTS Mode, Depth, MaxObjs
VARIABLES ps, hist     \* ps: seq of [cols, idx, data: seq (per column) of seqs]
vars == <<ps, hist>>

Table(cols, idx, data) == [cols |-> cols, idx |-> idx, data |-> data]
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(s) == FoldLeft(Max2, s[1], s)
MinOf(s) == FoldLeft(Min2, s[1], s)
ColIx(p, c) == CHOOSE i \in DOMAIN p.cols : p.cols[i] = c
Column(p, c) == p.data[ColIx(p, c)]
Take(s, is) == [k \in DOMAIN is |-> s[is[k]]]   \* is: seq of positions
Rows(p, is) == [p EXCEPT !.idx = Take(@, is), !.data = [c \in DOMAIN p.cols |-> Take(p.data[c], is)]]
Cols(p, cs) == Table(cs, p.idx, [k \in DOMAIN cs |-> Column(p, cs[k])])
Where(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)

\* grouping by periods of f minutes, which start at midnight
Period(p, f) == [i \in DOMAIN p.idx |-> p.idx[i] \div f]
Increasing(p) == \A i \in 1..(Len(p.idx) - 1) : p.idx[i] < p.idx[i + 1]
CanResample(p, f) == Len(p.idx) > 0 /\ Increasing(p) /\ Len(p.cols) > 0
                     /\ LET g == Period(p, f) IN \A i \in 1..(Len(g) - 1) : g[i + 1] - g[i] \in {0, 1}
Groups(p, f) == LET g == Period(p, f) IN [k \in 1..(Last(g) - g[1] + 1) |-> Where(Len(g), LAMBDA i : g[i] = g[1] + k - 1)]
Apply(rule, s) == CASE rule = "sum" -> Sum(s) [] rule = "mean" -> Sum(s) \div Len(s) [] rule = "max" -> MaxOf(s)
                    [] rule = "min" -> MinOf(s) [] rule = "first" -> s[1] [] rule = "last" -> Last(s)
Whole(p, k) == \A c \in DOMAIN p.data : \A i \in DOMAIN p.data[c] : p.data[c][i] % k = 0
Divided(p, k) == [p EXCEPT !.data = [c \in DOMAIN @ |-> [i \in DOMAIN @[c] |-> @[c][i] \div k]]]
Resampled(p, f, rule) == LET g == Groups(p, f) IN
  Table(p.cols, [k \in DOMAIN g |-> (p.idx[1] \div f + k - 1) * f], [c \in DOMAIN p.cols |-> [k \in DOMAIN g |-> Apply(rule, Take(p.data[c], g[k]))]])
ExactMean(p, f) == LET g == Groups(p, f) IN \A c \in DOMAIN p.cols : \A k \in DOMAIN g : Sum(Take(p.data[c], g[k])) % Len(g[k]) = 0
CanResampleBy(p, f, rule, conv) == CanResample(p, f) /\ Whole(p, conv) /\ (rule = "mean" => ExactMean(Divided(p, conv), f))
RowSums(p) == [i \in DOMAIN p.idx |-> Sum([c \in DOMAIN p.cols |-> p.data[c][i]])]
CanMean(p) == Len(p.cols) > 0 /\ \A i \in DOMAIN p.idx : RowSums(p)[i] % Len(p.cols) = 0
MeanOf(p) == Table(<<"Mean">>, p.idx, <<[i \in DOMAIN p.idx |-> RowSums(p)[i] \div Len(p.cols)]>>)
SumOf(p) == Table(<<"Sum">>, p.idx, <<RowSums(p)>>)
WithColumns(p, q) ==
  LET new == SelectSeq(q.cols, LAMBDA c : c \notin {p.cols[i] : i \in DOMAIN p.cols})
      names == p.cols \o new
      In(q1, c) == \E i \in DOMAIN q1.cols : q1.cols[i] = c
  IN Table(names, p.idx, [k \in DOMAIN names |-> IF In(q, names[k]) THEN Column(q, names[k]) ELSE Column(p, names[k])])
\* per thousand of nothing: error in percent times the value compared with, or how it is infinite
ErrorOf(p, a, b) == LET x == Column(p, a)  y == Column(p, b) IN
  [i \in DOMAIN x |-> IF y[i] # 0 THEN <<"num", 100 * (x[i] - y[i])>> ELSE IF x[i] = 0 THEN <<"num", 0>> ELSE <<"inf", IF x[i] > 0 THEN 1 ELSE -1>>]
PeakOf(p) == [c \in DOMAIN p.cols |-> LET s == p.data[c] IN [k \in DOMAIN Where(Len(s), LAMBDA i : s[i] = MaxOf(s)) |->
                LET i == Where(Len(s), LAMBDA j : s[j] = MaxOf(s))[k] IN <<p.idx[i], s[i]>>]]
\* profiles of the harness: minute t of the day called d is d * 1440 + t; given as runs [position, value, length] of values going up by one
SeriesRuns(ds) == [i \in DOMAIN ds |-> <<(i - 1) * 1440, ds[i] * 1440, 1440>>]
AverageRun(ds) == <<0, Sum(ds) * 1440, 1440>>   \* first value times the number of days
Duration(p, c) == SortSeq(Column(p, c), LAMBDA a, b : a > b)

\* --------------------------------------------------------------------------
O(op, h) == [op |-> op, h |-> h, g |-> 0, f |-> 0, k |-> 1, rule |-> "", cs |-> <<>>, is |-> <<>>, t |-> Table(<<>>, <<>>, <<>>)]
\* the tables after an operation; operations which only answer leave them as they are
After(s, o) ==
  LET p == s[o.h] IN
  CASE o.op = "new" -> Append(s, o.t)
    [] o.op = "resample" -> Append(s, Resampled(Divided(p, o.k), o.f, o.rule))
    [] o.op = "resample!" -> [s EXCEPT ![o.h] = Resampled(Divided(p, o.k), o.f, o.rule)]
    [] o.op = "rename" -> [s EXCEPT ![o.h].cols = o.cs]
    [] o.op \in {"add", "addtable"} -> IF o.op = "add" THEN (IF s[o.g].idx = p.idx THEN [s EXCEPT ![o.h] = WithColumns(p, s[o.g])] ELSE s)
                                      ELSE IF o.t.idx = p.idx THEN [s EXCEPT ![o.h] = WithColumns(p, o.t)] ELSE s
    [] o.op \in {"get", "loccols"} -> Append(s, Cols(p, o.cs))
    [] o.op = "loc" -> Append(s, LET q == Rows(p, Where(Len(p.idx), LAMBDA i : p.idx[i] >= o.is[1] /\ p.idx[i] <= o.is[2])) IN IF o.cs = <<>> THEN q ELSE Cols(q, o.cs))
    [] o.op = "locrow" -> Append(s, Rows(p, o.is))
    [] o.op = "iloc" -> Append(s, LET q == Rows(p, o.is) IN IF o.cs = <<>> THEN q ELSE Cols(q, o.cs))
    [] o.op = "head" -> Append(s, Rows(p, [i \in 1..Min2(o.f, Len(p.idx)) |-> i]))
    [] o.op = "mean" -> Append(s, MeanOf(p))
    [] o.op = "sum" -> Append(s, SumOf(p))
    [] o.op \in {"copy", "csv", "excel"} -> Append(s, p)
    [] OTHER -> s
\* whether it must be refused
Refused(s, o) ==
  \/ o.op = "add" /\ s[o.g].idx # s[o.h].idx
  \/ o.op = "addtable" /\ o.t.idx # s[o.h].idx
  \/ o.op \in {"addother", "badfile", "badengine", "badframe"}

\* --------------------------------------------------------------------------
Pick(S) == IF Mode = "walk" THEN RandomSubset(1, S) ELSE S
R(S, x) == RandomElement(S)
Names == {"a", "case 2", "3", "x"}
RandTable(x) ==
  LET n == R(1..8, x)
      step == R({1, 1, 10, 60, 720}, x)
      start == R({0, 0, 0, 55, 1435, 7}, x)
      k == R(1..3, x)
      names == SetToSeq(CHOOSE S \in RandomSubset(1, {T \in SUBSET Names : Cardinality(T) = k}) : TRUE)
  IN Table(names, [i \in 1..n |-> start + (i - 1) * step], [c \in 1..k |-> [i \in 1..n |-> 720 * R({0, 0, 1, 2, 3, 5, 8, 13, 21, 30}, c * 100 + i)]])
SameIndex(p, x) == LET k == R(1..2, x) IN LET names == SetToSeq(CHOOSE S \in RandomSubset(1, {T \in SUBSET Names : Cardinality(T) = k}) : TRUE) IN
  Table(names, p.idx, [c \in 1..k |-> [i \in DOMAIN p.idx |-> 720 * R(0..9, c * 100 + i)]])
Shifted(t, x) == CASE t.idx = <<>> -> [t EXCEPT !.idx = <<5>>, !.data = [c \in DOMAIN t.data |-> <<720>>]]
                   [] R(1..3, x) = 1 -> [t EXCEPT !.idx = [i \in DOMAIN @ |-> @[i] + 1]]
                   [] R(1..2, x) = 1 /\ Len(t.idx) > 1 -> Rows(t, [i \in 1..(Len(t.idx) - 1) |-> i])
                   [] OTHER -> [t EXCEPT !.idx = [i \in DOMAIN @ |-> IF i = Len(@) THEN @[i] + 2 ELSE @[i]]]
Small == {Table(<<"a">>, <<0, 1, 2>>, <<<<0, 6, 3>>>>), Table(<<"a", "b">>, <<1, 2>>, <<<<4, 4>>, <<0, 2>>>>)}
Few(S) == IF Mode = "walk" THEN Pick(S) ELSE S
Range1(s) == {s[i] : i \in DOMAIN s}
SubNames(p) == {S \in SUBSET Range1(p.cols) : S # {}}
Rec(o) == hist' = IF Mode = "walk" THEN Append(hist, o) ELSE hist
Do(o) == ps' = (IF Refused(ps, o) THEN ps ELSE After(ps, o)) /\ Rec(o)
More == Len(ps) < MaxObjs
RandPos(p, x) == [i \in 1..R(1..3, x) |-> R(1..Len(p.idx), i)]
New(x) == IF Mode = "walk" THEN {RandTable(x)} ELSE Small
Ops ==
  \/ More /\ \E t \in New(hist) : Do([O("new", 1) EXCEPT !.t = t, !.f = IF Mode = "walk" THEN R(0..1, hist) ELSE 0])
  \/ \E h \in Pick(DOMAIN ps) : LET p == ps[h] IN
     \/ \E f \in Pick({2, 5, 10, 30, 60, 120, 1440}), rule \in Pick({"sum", "mean", "max", "min", "first", "last"}), k \in Pick({1, 2, 60}), op \in Pick({"resample", "resample!"}) :
          (op = "resample!" \/ More) /\ CanResampleBy(p, f, rule, k) /\ Do([O(op, h) EXCEPT !.f = f, !.rule = rule, !.k = k])
     \/ Mode = "walk" /\ Len(p.cols) <= 3 /\ Do([O("rename", h) EXCEPT !.cs = SubSeq(<<<<"n1", "a", "b c">>, <<"x", "3", "Sum">>, <<"a", "x", "case 2">>>>[R(1..3, hist)], 1, Len(p.cols))])
     \/ \E g \in Pick(DOMAIN ps) : g # h /\ Do([O("add", h) EXCEPT !.g = g])
     \/ Mode = "walk" /\ \E t \in {SameIndex(p, hist)} : \E t2 \in {IF R(1..3, hist) = 1 THEN Shifted(t, hist) ELSE t} : Do([O("addtable", h) EXCEPT !.t = t2])
     \/ More /\ p.cols # <<>> /\ \E op \in Pick({"get", "loccols"}), S \in Pick(SubNames(p)) : Do([O(op, h) EXCEPT !.cs = SetToSeq(S)])
     \/ More /\ p.idx # <<>> /\ Increasing(p) /\ \E a \in Pick(Range1(p.idx)), b \in Pick(Range1(p.idx)), S \in Pick(SubNames(p) \cup {{}}) :
          a <= b /\ Do([O("loc", h) EXCEPT !.is = <<a, b>>, !.cs = SetToSeq(S)])
     \/ More /\ p.idx # <<>> /\ Increasing(p) /\ \E i \in Pick(DOMAIN p.idx) : Do([O("locrow", h) EXCEPT !.is = <<i>>])
     \/ More /\ p.idx # <<>> /\ \E is \in (IF Mode = "walk" THEN {RandPos(p, hist)} ELSE {<<1>>, <<2, 1>>}), S \in Pick(SubNames(p) \cup {{}}) :
          (\A i \in DOMAIN is : is[i] <= Len(p.idx)) /\ Do([O("iloc", h) EXCEPT !.is = is, !.cs = SetToSeq(S)])
     \/ More /\ \E f \in Pick({1, 2, 5}) : Do([O("head", h) EXCEPT !.f = f])
     \/ More /\ CanMean(p) /\ Do(O("mean", h))
     \/ More /\ Do(O("sum", h))
     \/ More /\ \E op \in Pick({"copy", "csv", "excel"}) : (op = "copy" \/ (p.cols # <<>> /\ p.idx # <<>>)) /\ Do([O(op, h) EXCEPT !.f = IF Mode = "walk" THEN R(0..2, hist) ELSE 0])
     \/ \E op \in Pick({"error", "peak", "duration", "plotline", "plotarea", "plotshadow", "look"}) : p.cols # <<>> /\ p.idx # <<>>
          /\ \E S \in Pick(SubNames(p)) : (op = "error" => Cardinality(S) = 2) /\ (op = "duration" => Cardinality(S) = 1)
             /\ Do([O(op, h) EXCEPT !.cs = SetToSeq(S), !.f = IF Mode = "walk" THEN R(0..3, hist) ELSE 0])
     \/ Mode = "walk" /\ Do([O("format", h) EXCEPT !.is = [i \in 1..R(1..5, hist) |-> R(0..20, i)], !.f = R(0..3, hist)])
     \/ \E op \in Pick({"addother", "badfile", "badengine", "badframe"}) : Do(O(op, h))
Init == ps = <<>> /\ hist = <<>>
Finish == Mode = "walk" /\ Len(hist) \in {Depth} /\ PrintT("@@SCRIPT " \o ToJson(hist)) /\ hist' = [i \in 1..(Depth + 1) |-> hist[1]] /\ UNCHANGED ps
Next == (Len(hist) < Depth /\ Ops) \/ Finish
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") < Depth

\* tables are tables
Shape == \A h \in DOMAIN ps : /\ Len(ps[h].data) = Len(ps[h].cols) /\ Cardinality(Range1(ps[h].cols)) = Len(ps[h].cols)
                              /\ \A c \in DOMAIN ps[h].data : Len(ps[h].data[c]) = Len(ps[h].idx)
\* an operation changes at most the table it is told to change
Untouched == [][Cardinality({h \in DOMAIN ps : ps'[h] # ps[h]}) <= 1 /\ (Len(ps') > Len(ps) => SubSeq(ps', 1, Len(ps)) = ps)]_vars
\* totals survive summing up; a duration curve is a rearrangement; peaks are the highest values
Laws == \A h \in DOMAIN ps : LET p == ps[h] IN p.cols # <<>> /\ p.idx # <<>> =>
  /\ \A f \in {2, 5, 1440} : CanResample(p, f) => \A c \in DOMAIN p.cols : Sum(Resampled(p, f, "sum").data[c]) = Sum(p.data[c])
  /\ Sum(SumOf(p).data[1]) = Sum([c \in DOMAIN p.cols |-> Sum(p.data[c])])
  /\ \A c \in DOMAIN p.cols : LET d == Duration(p, p.cols[c]) IN Sum(d) = Sum(p.data[c]) /\ d[1] = MaxOf(p.data[c]) /\ PeakOf(p)[c][1][2] = d[1]
===============================================================================
