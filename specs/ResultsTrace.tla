------------------------------ MODULE ResultsTrace ------------------------------
(* Recorded programs on results: after every operation all tables and the answer *)
(* are those of Results.                                                         *)
EXTENDS Results
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, ev]
VARIABLES m, l
tv == <<ps, hist, m, l>>
T == Trace[m]
Norm(s) == [h \in DOMAIN s |-> [cols |-> s[h].cols, idx |-> s[h].idx, data |-> s[h].data]]
Lines(p, cs) == [k \in DOMAIN cs |-> [name |-> cs[k], x |-> p.idx, y |-> Column(p, cs[k])]]
Answer(s, e) ==
  LET p == s[e.h] IN
  CASE e.op = "error" -> ErrorOf(p, e.cs[1], e.cs[2])
    [] e.op = "peak" -> PeakOf(p)
    [] e.op = "duration" -> <<[name |-> e.cs[1], x |-> [i \in DOMAIN p.idx |-> i], y |-> Duration(p, e.cs[1])]>>
    [] e.op \in {"plotline", "plotarea"} -> Lines(p, IF e.f % 2 = 0 THEN e.cs ELSE p.cols)
    [] e.op = "plotshadow" -> (IF e.f < 2 THEN <<[name |-> "Average", x |-> p.idx, y |-> RowSums(p)]>> ELSE Lines(p, <<e.cs[1]>>))
                              \o Lines(p, IF e.f % 2 = 0 THEN e.cs ELSE p.cols)
    [] e.op = "look" -> <<[name |-> "", x |-> p.idx, y |-> <<Len(p.cols)>>]>>
    [] e.op = "format" -> [series |-> SeriesRuns(e.is), file |-> SeriesRuns(e.is), avg |-> <<AverageRun(e.is)>>, kw |-> SeriesRuns(e.is)]
    [] OTHER -> <<>>
\* neighbouring days may join into one run
RECURSIVE Joined(_)
Joined(r) == IF Len(r) < 2 THEN r
             ELSE IF r[1][2] + r[1][3] = r[2][2] THEN Joined(<<<<r[1][1], r[1][2], r[1][3] + r[2][3]>>>> \o SubSeq(r, 3, Len(r)))
             ELSE <<r[1]>> \o Joined(Tail(r))
Same(op, a, b) == IF op = "format" THEN /\ Joined(a.series) = Joined(b.series) /\ Joined(a.file) = Joined(b.file) /\ a.avg = b.avg /\ Joined(a.kw) = Joined(b.kw)
                  ELSE a = b
Wrong(e) ==
  IF Refused(ps, e) THEN (IF e.res # "refused" THEN {"C21.accepted"} ELSE {}) \cup (IF Norm(e.tables) # ps THEN {"C21.afterrefused"} ELSE {})
  ELSE IF e.res # "ok" THEN {"C21." \o e.op \o " " \o e.res}
  ELSE (IF Norm(e.tables) # ps' THEN {"C21." \o e.op} ELSE {})
       \cup (IF ~Same(e.op, e.answer, Answer(ps, e)) THEN {"C21." \o e.op \o " answer"} ELSE {})
TInit == ps = <<>> /\ hist = <<>> /\ m = 1 /\ l = 1
Consume ==
  /\ m <= Len(Trace) /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ ps' = IF Refused(ps, e) THEN ps ELSE After(ps, e)
     /\ LET w == Wrong(e) IN IF w = {} THEN l' = l + 1
                             ELSE PrintT("@@FAIL " \o ToJson([model |-> T.m, line |-> l, clauses |-> w])) /\ l' = Len(T.ev) + 1
  /\ UNCHANGED <<m, hist>>
NextTrace == m <= Len(Trace) /\ l > Len(T.ev) /\ m' = m + 1 /\ l' = 1 /\ ps' = <<>> /\ UNCHANGED hist
TSpec == TInit /\ [][Consume \/ NextTrace]_tv
Finished == m > Len(Trace) => PrintT("@@STAT " \o ToJson([programs |-> Len(Trace)]))
===============================================================================
