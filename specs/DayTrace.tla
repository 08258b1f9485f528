------------------------------- MODULE DayTrace -------------------------------
(* Trace validation: days of single appliances recorded from the real code.    *)
(* Every model of the trace is one behaviour: its days are consumed in order,  *)
(* each must be a day ApplianceDay allows (rules of DayRules) for the declared *)
(* parameters, the calendar day and the draws known about it.                  *)
EXTENDS DayRules, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)      \* sequence of [decl, ord, m, days]
PROP == IOEnv.PROP
VARIABLES m, l        \* model, next day event
vars == <<m, l>>

CeilDiv(a, b) == -((-a) \div b)
Clip(x, lo, hi) == Max2(lo, Min2(x, hi))
Len1(w) == w[2] - w[1]

\* units switched on for an underlying standard normal draw z (in 1/100), n units:
\* n/2 + z*n/4 rounded up and limited; both neighbours when it is an exact integer
KOn(n, z) ==
  IF z = -9999 THEN 1..n
  ELSE LET x == 200 * n + z * n
       IN IF x % 400 = 0 THEN {Clip(x \div 400, 1, n), Clip(x \div 400 + 1, 1, n)}
          ELSE {Clip(CeilDiv(x, 400), 1, n)}
\* off peak: uniform draw f (in 1/1000) over the first n - 1/2 of n equal steps
KOff(n, f) ==
  IF f = -1 THEN 1..n
  ELSE LET x == f * (2 * n - 1)
       IN IF x % 2000 = 0 THEN {Clip(x \div 2000, 1, n), Clip(x \div 2000 + 1, 1, n)}
          ELSE {Clip(x \div 2000 + 1, 1, n)}

PartRange(t, rc) == <<(t * (100 - rc)) \div 100, (t * (100 + rc)) \div 100>>
Cfg(d, k, e) ==
  [ day |-> 1440, win |-> d.win,
    rv |-> [i \in 1..3 |-> (d.rw * Len1(d.win[i])) \div 100],
    tlo |-> (d.ft * (100 - d.tv)) \div 100, thi |-> (d.ft * (100 + d.tv)) \div 100,
    fc |-> d.fc, num |-> d.num, fixed |-> d.fixed, flat |-> d.flat,
    p |-> IF Len(d.p) = 1 THEN d.p[1] ELSE d.p[k + 1],
    th |-> d.th, pk |-> e.pk,
    kon |-> IF d.fixed THEN <<d.num>> ELSE SetToSeq(KOn(d.num, e.z)),
    koff |-> IF d.fixed THEN <<d.num>> ELSE SetToSeq(KOff(d.num, e.f)),
    cyc |-> [i \in 1..Len(d.cyc) |->
               [w |-> d.cyc[i].w, a |-> PartRange(d.cyc[i].t1, d.cyc[i].rc), pa |-> d.cyc[i].p1,
                b |-> PartRange(d.cyc[i].t2, d.cyc[i].rc), pb |-> d.cyc[i].p2, sw |-> Len(d.cyc) = 3]],
    cont |-> d.cont ]

\* calendar: ordinal 1 is a Monday
Weekend(ord) == (ord + 6) % 7 >= 5
\* the appliance is not eligible on this day, whatever is drawn
Barred(d, ord) == \/ d.ft = 0 \/ d.occ = 0
                  \/ d.wd = 0 /\ Weekend(ord)
                  \/ d.wd = 1 /\ ~Weekend(ord)
\* it may sit out a day / it may run
MaySkip(d, ord, f) == Barred(d, ord) \/ (d.occ < 1000 /\ (f = -1 \/ f > d.occ))
MayRun(d, ord, f) == ~Barred(d, ord) /\ (f = -1 \/ f <= d.occ)

C06Fails(d, c, ord, e) ==
  (IF e.runs # <<>> /\ ~MayRun(d, ord, e.f) THEN {"C06.ranOnABarredDay"} ELSE {})
  \cup (IF e.runs = <<>> /\ ~MaySkip(d, ord, e.f) /\ ~(c.flat /\ c.num * c.p = 0) /\ TMin(c) > 0
        THEN {"C06.skippedAnEligibleDay"} ELSE {})

\* a level is only recognisable when it is above the marker
Visible(c) == c.flat \/ (/\ c.num > 0 /\ c.th <= 50
                         /\ IF c.cyc = <<>> THEN c.p > 100
                            ELSE \A i \in 1..Len(c.cyc) : /\ c.cyc[i].pa > 100 /\ c.cyc[i].pb > 100
                                                          /\ c.cyc[i].a[1] + c.cyc[i].b[1] > 0)
Fails(t, e) ==
  LET d == t.decl
      ord == t.ord + e.d
      c == Cfg(d, e.d, e)
  IN CASE e.res = "crash" -> {"crash"}
       [] e.res = "hang" -> {"hang"}
       [] e.res = "malformed" -> {"malformed"}
       [] e.res = "fit" -> IF d.ft > 0 /\ d.occ > 0 /\ ErrorPossible(c) THEN {} ELSE {"C02.errorWithoutReason", "C20.errorWithoutReason"}
       [] OTHER -> C06Fails(d, c, ord, e)
                   \cup (IF e.runs # <<>> /\ ErrorCertain(c) THEN {"C20.errorMissing", "C02.errorMissing"} ELSE {})
                   \cup (IF e.runs = <<>> \/ ~Visible(c) \/ PROP \in {"C06", "C20"} THEN {} ELSE DayFails(c, e.runs))
Mine(cl) == cl \in {"crash", "hang", "malformed"} \/ SubSeq(cl, 1, 3) = PROP

Init == m \in 1..Len(Trace) /\ l = 0
Consume ==
  /\ l < Len(Trace[m].days)
  /\ LET bad == {x \in Fails(Trace[m], Trace[m].days[l + 1]) : Mine(x)}
     IN IF bad = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([model |-> Trace[m].m, line |-> l + 1, clauses |-> bad]))
  /\ l' = l + 1 /\ UNCHANGED m
Spec == Init /\ [][Consume]_vars
\* every recorded day was consumed
Consumed == TLCGet("distinct") = FoldLeft(LAMBDA a, t : a + Len(t.days) + 1, 0, Trace)
===============================================================================
