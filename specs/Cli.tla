---------------------------------- MODULE Cli ----------------------------------
(* One command line: which options are rejected, which days of which files are  *)
(* simulated, where the results are written.                                    *)
EXTENDS Calendar, FiniteSets, SequencesExt, TLC, Json, IOUtils

\* a command: files: seq of [kind, id, num]; dir: whether they are the content of a folder
\* outs: seq of output numbers; n: seq of numbers of days; ds, de: <<y, m, d>> or <<>>; years: seq
\* today, asked: day number of today, answer when the number of days is asked for
CONSTANTS Mode, Depth
VARIABLES c, phase, done, outs
vars == <<c, phase, done, outs>>

D(t) == Day(t[1], t[2], t[3])
MaxLen == 366  \* entries of the power series of a file of kind "series"
MonthMode(r) == r.dir /\ Len(r.years) = 1
Matching(r) == SelectSeq(r.files, LAMBDA f : f.kind # "other")   \* files of the folder with the wanted extension
Inputs(r) == IF MonthMode(r) THEN SortSeq(Matching(r), LAMBDA f, g : f.num < g.num) ELSE r.files
Start(r) == IF r.years # <<>> THEN NewYear(r.years[1])
            ELSE IF r.ds # <<>> THEN D(r.ds)
            ELSE IF r.de # <<>> /\ r.n = <<>> THEN NewYear(r.de[1]) ELSE 0
End(r) == IF r.years # <<>> THEN LastDay(Last(r.years))
          ELSE IF r.de # <<>> THEN D(r.de)
          ELSE IF r.ds # <<>> /\ r.n = <<>> THEN LastDay(r.ds[1]) ELSE 0
\* contradictory or mismatching options
Rejected(r) ==
  \/ r.years # <<>> /\ (r.ds # <<>> \/ r.de # <<>>)
  \/ r.files # <<>> /\ (\/ MonthMode(r) /\ (Len(Inputs(r)) # 12 \/ Len(r.outs) > 1)
                        \/ Len(r.n) > 1 /\ Len(r.n) # Len(Inputs(r))
                        \/ ~MonthMode(r) /\ Len(r.outs) > 1 /\ Len(r.outs) # Len(Inputs(r)))
Nth(s, i) == IF s = <<>> THEN 0 ELSE IF Len(s) = 1 THEN s[1] ELSE s[i]
\* the days of the i-th simulation: <<first, number>>
Span(r, i) ==
  IF MonthMode(r) THEN <<Day(r.years[1], i, 1), MonthLength(r.years[1], i)>>
  ELSE LET s == Start(r)  e == End(r)  n == Nth(r.n, i) IN
       IF s # 0 /\ e # 0 THEN <<s, IF n # 0 THEN n ELSE e - s + 1>>
       ELSE LET k == IF n # 0 THEN n ELSE r.asked IN
            IF s # 0 THEN <<s, k>> ELSE IF e # 0 THEN <<e - k + 1, k>> ELSE <<r.today, k>>
\* a simulation which cannot be done: no such file, unknown format, power series too short, no day at all
Impossible(r, i) == LET f == Inputs(r)[i] IN
  \/ r.dir /\ ~MonthMode(r)
  \/ f.kind \in {"none", "text", "nopy"}
  \/ f.kind \in {"series", "const"} /\ Span(r, i)[2] < 1
  \/ f.kind = "series" /\ Span(r, i)[2] > MaxLen
Feasible(r) == ~Rejected(r) /\ \A i \in DOMAIN Inputs(r) : ~Impossible(r, i)
\* number of simulations which are completed
Completed(r) == IF Rejected(r) THEN 0
                ELSE LET bad == {i \in DOMAIN Inputs(r) : Impossible(r, i)} IN
                     IF bad = {} THEN Len(Inputs(r)) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
Sims(r) == LET ii == SelectSeq([i \in 1..Completed(r) |-> i], LAMBDA i : Inputs(r)[i].kind # "py") IN
           [k \in DOMAIN ii |-> [id |-> Inputs(r)[ii[k]].id, first |-> Span(r, ii[k])[1], count |-> Span(r, ii[k])[2]]]
\* what is left at each place: the last simulation written there; a place is an output number, or 100 + the file by default
Place(r, i) == IF r.outs = <<>> THEN 100 + Inputs(r)[i].id ELSE Nth(r.outs, i)
Places(r) == IF MonthMode(r) THEN (IF Feasible(r) THEN {Nth(r.outs, 1)} ELSE {})
             ELSE {Place(r, i) : i \in {j \in 1..Completed(r) : Inputs(r)[j].kind # "py"}}
Writer(r, p) == CHOOSE i \in 1..Completed(r) : Inputs(r)[i].kind # "py" /\ Place(r, i) = p /\ \A j \in (i + 1)..Completed(r) : Inputs(r)[j].kind # "py" => Place(r, j) # p

\* what the files of the harness generate: a value of their own and for each day, another one for weekends
Base(f, k) == 6 * (400 * f.id + (IF f.kind = "series" THEN k - 1 ELSE 0))
Extra(f, k, first) == IF IsWeekend(first + k - 1) THEN 500 ELSE 0
\* power before 12:00, from 12:00 to 12:10, and afterwards
DayRow(f, k, first) == <<Base(f, k), Base(f, k) + Extra(f, k, first), Extra(f, k, first)>>
Rows(r, i) == LET s == Span(r, i) IN [k \in 1..s[2] |-> DayRow(Inputs(r)[i], k, s[1])]
\* hourly mean, maximum and minimum in the morning, at noon, and afterwards
HourRow(d) == <<d[1], d[1], d[1], (10 * d[2] + 50 * d[3]) \div 60, d[2], IF d[2] < d[3] THEN d[2] ELSE d[3], d[3], d[3], d[3]>>
YearRows(r) == FlattenSeq([i \in 1..12 |-> Rows(r, i)])

\* --------------------------------------------------------------------------
\* the life of a command
Run == IF phase = "start" THEN (IF Rejected(c) THEN phase' = "rejected" ELSE phase' = "going") /\ UNCHANGED <<done, outs>>
       ELSE IF phase = "going" /\ Len(done) < Len(Inputs(c)) THEN
         LET i == Len(done) + 1 IN
         IF Impossible(c, i) THEN phase' = "failed" /\ UNCHANGED <<done, outs>>
         ELSE /\ done' = Append(done, [file |-> Inputs(c)[i].id, span |-> Span(c, i)])
              /\ outs' = IF MonthMode(c) \/ Inputs(c)[i].kind = "py" THEN outs ELSE [p \in {Place(c, i)} |-> i] @@ outs
              /\ UNCHANGED phase
       ELSE /\ phase = "going" /\ phase' = "end" /\ UNCHANGED done
            /\ outs' = IF MonthMode(c) THEN [p \in {Nth(c.outs, 1)} |-> 0] @@ outs ELSE outs
F(k, i, n) == [kind |-> k, id |-> i, num |-> n]
Folder(k, z) == [i \in 1..k |-> F(IF i = 3 THEN "series" ELSE "const", i, ((i * 5) % 13) + z)]   \* in no particular order
FewFiles == {<<>>, <<F("const", 1, 0)>>, <<F("series", 1, 0), F("const", 2, 0)>>, <<F("const", 1, 0), F("py", 2, 0), F("text", 3, 0)>>}
FewDates == {<<>>, <<2023, 12, 30>>, <<2024, 2, 29>>}
Small == {[files |-> f, dir |-> FALSE, outs |-> o, n |-> n, ds |-> s, de |-> e, years |-> y, today |-> 739000, asked |-> 2] :
            f \in FewFiles, o \in {<<>>, <<1>>, <<1, 2>>, <<1, 2, 3>>}, n \in {<<>>, <<2>>, <<1, 3>>}, s \in FewDates, e \in FewDates,
            y \in {<<>>, <<2023>>, <<2023, 2024>>}}
Months == {[files |-> Folder(k, z), dir |-> TRUE, outs |-> o, n |-> n, ds |-> s, de |-> <<>>, years |-> y, today |-> 739000, asked |-> 2] :
            k \in {1, 11, 12, 13}, z \in {0, 1}, o \in {<<>>, <<1>>, <<1, 2>>}, n \in {<<>>, <<2>>, <<2, 2>>}, s \in {<<>>, <<2023, 12, 30>>},
            y \in {<<2023>>, <<2024>>, <<2023, 2024>>, <<>>}}

\* random commands
R(S, x) == RandomElement(S)
Pct(p, x) == RandomElement(1..100) <= p
DrawDate(y, x) == LET m == R(1..12, x) IN <<y, m, R({1, MonthLength(y, m), R(1..MonthLength(y, m), x)}, x)>>
DrawKind(x) == IF Pct(85, x) THEN R({"series", "const"}, x) ELSE R({"py", "nopy", "none", "text"}, x)
Perm(S, x) == R({f \in [1..Cardinality(S) -> S] : Cardinality({f[i] : i \in DOMAIN f}) = Cardinality(S)}, x)
DrawFiles(k, x) == [i \in 1..k |-> F(DrawKind(i), i, 0)]
LateOrEarly(y, late, x) == IF late THEN <<y, 12, R(19..31, x)>> ELSE <<y, 1, R(1..12, x)>>
DrawSeq(k, S, x) == CASE R(1..6, x) = 1 -> <<>> [] R(1..2, x) = 1 -> <<R(S, x)>> [] R(1..5, x) = 1 -> [i \in 1..R(2..4, x) |-> R(S, i)] [] OTHER -> [i \in 1..k |-> R(S, i)]
Draw(x) ==
  LET k == R({0, 1, 1, 2, 2, 3, 4}, x)
      y == R(1999..2032, x)
      years == IF Pct(12, x) THEN (IF Pct(30, x) THEN <<y>> ELSE IF Pct(60, x) THEN <<y, y + 1>> ELSE <<y, y + 2, y + 1>>) ELSE <<>>
      n == IF years # <<>> /\ (k > 1 \/ ~Pct(20, x)) THEN <<R(1..9, x)>> ELSE IF Pct(45, x) THEN <<>> ELSE DrawSeq(k, 1..9, x)
      w == R(1..8, x)
      dd == IF years # <<>> /\ ~Pct(12, x) THEN <<<<>>, <<>>>>
            ELSE IF w = 1 THEN <<<<>>, <<>>>>
            ELSE IF w \in {2, 3} THEN <<IF n = <<>> THEN LateOrEarly(y, TRUE, x) ELSE DrawDate(y, x), <<>>>>
            ELSE IF w \in {4, 5} THEN <<<<>>, IF n = <<>> THEN LateOrEarly(y, FALSE, x) ELSE DrawDate(y, x)>>
            ELSE LET s == DrawDate(y, x)  len == R(0..10, x)
                     d == s[3] + len IN
                 <<s, IF n = <<>> /\ Pct(8, x) THEN <<y - 1, 12, 31>> ELSE IF d <= MonthLength(s[1], s[2]) THEN <<s[1], s[2], d>>
                      ELSE IF s[2] = 12 THEN <<s[1] + 1, 1, d - 31>> ELSE <<s[1], s[2] + 1, d - MonthLength(s[1], s[2])>>>>
  IN [files |-> DrawFiles(k, x), dir |-> FALSE, outs |-> IF Pct(25, x) THEN <<>> ELSE DrawSeq(k, 1..5, x), n |-> n, ds |-> dd[1], de |-> dd[2],
      years |-> years, today |-> 0, asked |-> R(1..3, x)]
\* folders: names count from 0, 1 or anything
DrawFolder(k, x) ==
  LET nums == CASE R(1..3, x) = 1 -> 0..(k - 1) [] R(1..2, x) = 1 -> 1..k [] OTHER -> {i * 3 + 1 : i \in 1..k}
      order == SetToSeq(nums)
      off == R(0..(k - 1), x)
  IN [i \in 1..k |-> F(R({"series", "const"}, i), i, order[((i * (IF k = 12 THEN 5 ELSE 1) + off) % k) + 1])] \o (IF Pct(30, x) THEN <<F("other", 0, 0)>> ELSE <<>>)
DrawMonths(x) ==
  [files |-> DrawFolder(IF Pct(55, x) THEN 12 ELSE R({1, 11, 13}, x), x), dir |-> TRUE, outs |-> IF Pct(40, x) THEN <<>> ELSE IF Pct(70, x) THEN <<1>> ELSE <<1, 2>>,
   n |-> IF Pct(60, x) THEN <<>> ELSE <<R(1..3, x)>>, ds |-> IF Pct(10, x) THEN <<2023, 12, 30>> ELSE <<>>, de |-> <<>>,
   years |-> IF Pct(88, x) THEN <<R({1999, 2000, 2023, 2024, 2100}, x)>> ELSE IF Pct(50, x) THEN <<2023, 2024>> ELSE <<>>, today |-> 0, asked |-> 1]

Init == /\ c \in (IF Mode = "check" THEN Small \cup Months ELSE {[x |-> 0]})
        /\ phase = "start" /\ done = <<>> /\ outs = [p \in {} |-> 0]
Walk == /\ phase = "start" /\ c' \in {IF Mode = "months" THEN DrawMonths(done) ELSE Draw(done)}
        /\ PrintT("@@SCRIPT " \o ToJson(c')) /\ phase' = "printed" /\ UNCHANGED <<done, outs>>
Next == IF Mode = "check" THEN Run /\ UNCHANGED c ELSE Walk
Spec == Init /\ [][Next]_vars

NothingWhenRejected == phase = "rejected" => done = <<>> /\ DOMAIN outs = {}
Agree == phase \in {"end", "failed", "rejected"} =>
  /\ Len(done) = Completed(c) /\ (phase = "end") = Feasible(c)
  /\ DOMAIN outs = Places(c) /\ \A p \in DOMAIN outs : outs[p] # 0 => outs[p] = Writer(c, p)
EveryFileOnce == phase = "end" => [i \in DOMAIN done |-> done[i].file] = [i \in DOMAIN Inputs(c) |-> Inputs(c)[i].id]
OwnOutput == phase = "end" /\ ~MonthMode(c) /\ Len(c.outs) # 1 => Cardinality(DOMAIN outs) = Cardinality({i \in DOMAIN done : Inputs(c)[i].kind # "py"})
                                                                   \/ \E i, j \in DOMAIN c.outs : i # j /\ c.outs[i] = c.outs[j]
\* the months follow each other over the whole year
WholeYear == phase = "end" /\ MonthMode(c) => /\ done[1].span[1] = NewYear(c.years[1]) /\ done[12].span[1] + done[12].span[2] - 1 = LastDay(c.years[1])
                                              /\ \A i \in 1..11 : done[i].span[1] + done[i].span[2] = done[i + 1].span[1]
                                              /\ \A i \in 1..11 : Inputs(c)[i].num < Inputs(c)[i + 1].num
===============================================================================
