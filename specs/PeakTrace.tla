------------------------------- MODULE PeakTrace -------------------------------
(* Recorded programs: the maximum profiles and peak time ranges of real        *)
(* communities are those of Peak, whatever happened before.                    *)
EXTENDS Peak
Trace == JsonDeserialize(IOEnv.TRACE)   \* seq of [m, ev]
VARIABLES m, l, rng    \* rng: the range in force as last seen
tv == <<c, uc, hist, m, l, rng>>
T == Trace[m]
Computes(e) == e.op \in {"make", "force", "forceenl", "set", "calcenl"}
Step(e) ==
  CASE e.op = "user" -> AddUser(e.n)
    [] e.op = "app" -> AddApp(e.u, [num |-> e.num, p |-> e.p, win |-> e.win])
    [] e.op = "make" -> Make(e.e, e.k, e.j)
    [] e.op = "force" -> Force(e.k, e.j)
    [] e.op \in {"forceenl", "set", "calcenl"} -> ForceEnl(e.e, e.k, e.j)
    [] OTHER -> Same
\* runs of the recorded maximum profile: <<from, to, demand>>
ProfileOk(cc, e) ==
  LET S == {s \in Segments(cc) : s[3] # 0}
      Is(f) == \A i \in DOMAIN e.max : \A s \in Segments(cc) :
                 (s[1] < e.max[i][2] /\ e.max[i][1] < s[2]) => s[3] = e.max[i][3]
      len == MapThenSumSet(LAMBDA s : s[2] - s[1], S)
      got == Sum([i \in 1..Len(e.max) |-> e.max[i][2] - e.max[i][1]], Len(e.max))
  IN Is(1) /\ len = got
Wrong(e) ==
  IF e.res # "ok" THEN {"C13." \o e.res}
  ELSE (IF e.op # "user" /\ ~ProfileOk(c', e) THEN {"C13.maximum"} ELSE {})
    \cup (IF Computes(e) /\ ~RangesOk(c, e.k, e.j, uc'.enl, e.range) THEN {"C13.range"} ELSE {})
    \cup (IF e.op \in {"calc", "calcenl"} /\ ~RangesOk(c, e.k, e.j, uc'.enl, e.ret) THEN {"C13.returned"} ELSE {})
    \cup (IF uc.made /\ ~Computes(e) /\ e.range # rng THEN {"C13.kept"} ELSE {})
TInit == Init /\ m = 1 /\ l = 1 /\ rng = <<0, 0>>
Consume ==
  /\ m <= Len(Trace) /\ l <= Len(T.ev)
  /\ LET e == T.ev[l] IN
     /\ Step(e)
     /\ (LET w == Wrong(e) IN IF w = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([model |-> T.m, line |-> l, clauses |-> w])))
     /\ rng' = e.range
  /\ l' = l + 1 /\ UNCHANGED <<m, hist>>
NextTrace == m <= Len(Trace) /\ l > Len(T.ev) /\ m' = m + 1 /\ l' = 1 /\ c' = <<>> /\ uc' = NoUC /\ rng' = <<0, 0>> /\ UNCHANGED hist
TSpec == TInit /\ [][Consume \/ NextTrace]_tv
SumLen == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + F(i - 1) IN F(Len(Trace))
Consumed == TLCGet("distinct") = Len(Trace) + 1 + SumLen
===============================================================================
