---------------------------- MODULE CommunityRules ----------------------------
(* What one day of a whole community may look like, as acceptance rules.       *)
(*                                                                             *)
(* A profile is a sequence of runs <<s, e, vec>>.  The power of appliance j is *)
(* one unit of its own digit, so that vec[j + 1] counts the units of appliance *)
(* j switched on over all single users and vec[1] the standby markers.         *)
(* Minutes which are not listed are zero.                                      *)
(*                                                                             *)
(* Community g: day (minutes), ord (ordinal of the first day; 1 is a Monday),  *)
(*   users  seq of [n: single users, pref: number of preferences]              *)
(*   apps   seq of [u: owner, num, flat, win: three windows, ft, occ (1/1000), *)
(*          wd: 0 weekdays / 1 weekends / 2 all, pref: index or 0,             *)
(*          pw: power of each day in units of the digit (one entry: constant), *)
(*          rv: minutes by which the borders of a flat appliance's only window *)
(*          may move]                                                          *)
(* Appliances have no variability, all their units run together, and their     *)
(* minimum cycle is one minute.                                                *)
EXTENDS DayRules

Weekend(ord) == (ord + 6) % 7 >= 5
AppsOf(g) == 1..Len(g.apps)
WinOf(x) == MergeIv({x.win[i] : i \in 1..3})
\* minutes in which x may be on, and those of its window whatever the draws
OuterOf(x) == IF x.rv = 0 THEN WinOf(x) ELSE <<<<Max2(0, x.win[1][1] - x.rv), Min2(1440, x.win[1][2] + x.rv)>>>>
CoreOf(x) == IF x.rv = 0 THEN WinOf(x) ELSE <<<<x.win[1][1] + x.rv, x.win[1][2] - x.rv>>>>
Avail(x) == IvLen(WinOf(x))
Budget(x) == Cap(Max2(x.ft, 1), Avail(x))
Val(x, d) == x.num * (IF Len(x.pw) = 1 THEN x.pw[1] ELSE x.pw[d + 1])
Off(x, ord) == x.ft = 0 \/ x.occ = 0 \/ (x.wd = 0 /\ Weekend(ord)) \/ (x.wd = 1 /\ ~Weekend(ord))
InIv(s, e, ivs) == \E k \in 1..Len(ivs) : ivs[k][1] <= s /\ e <= ivs[k][2]

Borders(g) == UNION {{w[1], w[2]} : w \in UNION {ToSet(OuterOf(g.apps[j])) \cup ToSet(CoreOf(g.apps[j])) : j \in AppsOf(g)}}
\* runs cut at every window border
Pieces(g, runs) == CutRuns(runs, Borders(g))
Units1(p, j) == p[3][j + 1]
Area(ps, j) == FoldLeft(LAMBDA acc, p : acc + (p[2] - p[1]) * Units1(p, j), 0, ps)

\* number of single users for which appliance j ran on day d, -1 if there is none that fits
Count(g, ps, j, d) ==
  LET x == g.apps[j] v == Val(x, d) tot == Area(ps, j)
      per == v * (IF x.flat THEN Avail(x) ELSE Budget(x))
      core == SelectSeq(ps, LAMBDA p : InIv(p[1], p[2], CoreOf(x)))
  IN IF x.rv > 0 THEN IF core = <<>> \/ v = 0 THEN (IF tot = 0 THEN 0 ELSE -1)
                      ELSE IF Units1(core[1], j) % v # 0 THEN -1 ELSE Units1(core[1], j) \div v
     ELSE IF tot = 0 THEN 0 ELSE IF per = 0 \/ tot % per # 0 THEN -1 ELSE tot \div per

\* does the total come from single users which are each on for the appliance's own time
AppFails(g, ps, j, d) ==
  LET x == g.apps[j] v == Val(x, d) c == Count(g, ps, j, d) n == g.users[x.u].n
      iv == OuterOf(x)
      bad == {i \in 1..Len(ps) :
                LET k == Units1(ps[i], j) IN
                \/ k # 0 /\ ~InIv(ps[i][1], ps[i][2], iv)
                \/ v > 0 /\ (k % v # 0 \/ (c >= 0 /\ k > c * v))
                \/ x.flat /\ c > 0 /\ InIv(ps[i][1], ps[i][2], CoreOf(x)) /\ k # c * v}
  IN (IF bad # {} THEN {"C09.appliance"} ELSE {})
     \cup (IF c = -1 \/ c > n THEN {"C09.time"} ELSE {})
     \cup (IF c # 0 /\ Off(x, g.ord + d) THEN {"C06.barred"} ELSE {})
     \cup (IF c # 0 /\ x.pref # 0 /\ x.pref > g.users[x.u].pref THEN {"C06.preference"} ELSE {})
     \cup (IF c # n /\ v > 0 /\ ~Off(x, g.ord + d) /\ x.occ = 1000 /\ x.pref = 0 THEN {"C09.lost", "C06.skipped"} ELSE {})

\* a standby marker for every single user whose appliance is idle in its window
IdleFails(g, ps, d) ==
  LET cs == [j \in AppsOf(g) |-> Count(g, ps, j, d)]
      idle(p) == FoldLeft(LAMBDA acc, j :
                    LET x == g.apps[j] v == Val(x, d) IN
                    IF x.flat \/ v = 0 \/ ~InIv(p[1], p[2], WinOf(x)) THEN acc
                    ELSE acc + cs[j] - (Units1(p, j) \div v), 0, [j \in AppsOf(g) |-> j])
  IN IF \E i \in 1..Len(ps) : ps[i][3][1] # idle(ps[i]) THEN {"C09.idle"} ELSE {}

\* one preference per single user and day
PrefFails(g, ps, d) ==
  UNION { LET P == g.users[u].pref
              sure == {j \in AppsOf(g) : g.apps[j].u = u /\ g.apps[j].pref \in 1..P /\ g.apps[j].occ = 1000
                                         /\ ~Off(g.apps[j], g.ord + d) /\ Val(g.apps[j], d) > 0}
              of(k) == {Count(g, ps, j, d) : j \in {i \in sure : g.apps[i].pref = k}}
              K == {g.apps[j].pref : j \in sure}
              tot == FoldSet(LAMBDA k, acc : acc + (IF Cardinality(of(k)) = 1 THEN Max(of(k)) ELSE 0), 0, K)
          IN IF P = 0 THEN {}
             ELSE (IF \E k \in K : Cardinality(of(k)) > 1 THEN {"C06.preferenceNotShared", "C10.preference"} ELSE {})
                  \cup (IF tot > g.users[u].n \/ (K = 1..P /\ tot # g.users[u].n) THEN {"C06.preferenceCount", "C10.preference"} ELSE {})
        : u \in 1..Len(g.users) }

RowFails(g, runs, d) ==
  LET ps == Pieces(g, runs)
      af == UNION {AppFails(g, ps, j, d) : j \in AppsOf(g)}
  IN IF af \cap {"C09.time"} # {} THEN af
     ELSE af \cup IdleFails(g, ps, d) \cup PrefFails(g, ps, d)

\* the load kept on user type u is the part of the row made by its own appliances
PartFails(g, row, part, u) ==
  LET cut == UNION {{row[i][1], row[i][2]} : i \in 1..Len(row)} \cup UNION {{part[i][1], part[i][2]} : i \in 1..Len(part)}
      own == {j \in AppsOf(g) : g.apps[j].u = u}
      strip(runs) == {<<r[1], r[2], [j \in own |-> Units1(r, j)]>> : r \in {x \in ToSet(CutRuns(runs, cut)) : \E j \in own : Units1(x, j) # 0}}
  IN IF \/ strip(row) # strip(part)
        \/ \E i \in 1..Len(part) : \E j \in AppsOf(g) \ own : Units1(part[i], j) # 0
     THEN {"C09.userLoad"} ELSE {}

\* over the days of a result: single users and days do not repeat each other
Patterns(g, rows, j) == [d \in 1..Len(rows) |-> {<<p[1], p[2], Units1(p, j)>> : p \in {x \in ToSet(Pieces(g, rows[d])) : Units1(x, j) # 0}}]
\* all the single users together, or in groups of the same size, and never by themselves
Together(g, rows, j, k) == \A d \in 1..Len(rows) : \A i \in 1..Len(rows[d]) : Units1(rows[d][i], j) % (k * Val(g.apps[j], d - 1)) = 0
Independent(g, rows, j) == \A k \in 2..g.users[g.apps[j].u].n : ~Together(g, rows, j, k)
\* some at the same time on every day
Meeting(g, rows, j) == \A d \in 1..Len(rows) : \E i \in 1..Len(rows[d]) : Units1(rows[d][i], j) > Val(g.apps[j], d - 1)
HistoryFails(g, rows) ==
  LET cand == {j \in AppsOf(g) : /\ ~g.apps[j].flat /\ g.apps[j].occ = 1000 /\ g.apps[j].pref = 0 /\ g.apps[j].wd = 2
                                 /\ Len(g.apps[j].pw) = 1
                                 /\ Avail(g.apps[j]) >= 60 /\ 3 * g.apps[j].ft <= Avail(g.apps[j]) /\ g.apps[j].ft > 0}
      multi == {j \in cand : g.users[g.apps[j].u].n >= 2 /\ Len(rows) * (g.users[g.apps[j].u].n - 1) >= 5}
      \* so short that two of them hardly ever meet
      rare == {j \in multi : Len(rows) >= 6 /\ 8 * g.users[g.apps[j].u].n * (g.users[g.apps[j].u].n - 1) * Budget(g.apps[j]) <= Avail(g.apps[j])}
      days == {j \in cand : Len(rows) * g.users[g.apps[j].u].n >= 6 /\ Len(rows) >= 3}
      wide == {u \in 1..Len(g.users) : g.users[u].pref > 0 /\ g.users[u].n * Len(rows) >= 60
                                       /\ \E j \in AppsOf(g) : g.apps[j].u = u /\ g.apps[j].pref \in 1..g.users[u].pref
                                                               /\ g.apps[j].occ = 1000 /\ g.apps[j].wd = 2 /\ g.apps[j].ft > 0}
      \* used on some days only, or with moving windows: not by all single users alike
      loose == {j \in AppsOf(g) : /\ g.apps[j].occ = 500 /\ g.apps[j].pref = 0 /\ g.apps[j].wd = 2 /\ g.apps[j].ft > 0
                                  /\ Val(g.apps[j], 0) > 0 /\ g.users[g.apps[j].u].n >= 10 /\ Len(rows) >= 5}
      moving == {j \in AppsOf(g) : /\ g.apps[j].rv >= 20 /\ g.apps[j].occ = 1000 /\ g.apps[j].pref = 0 /\ g.apps[j].wd = 2 /\ g.apps[j].ft > 0
                                   /\ g.apps[j].win[1][1] > g.apps[j].rv /\ g.apps[j].win[1][2] < 1440 - g.apps[j].rv
                                   /\ Len(g.apps[j].pw) = 1}
      counts(j) == {Count(g, Pieces(g, rows[d]), j, d - 1) : d \in 1..Len(rows)}
  IN (IF \/ \E j \in loose : counts(j) \subseteq {0, g.users[g.apps[j].u].n}
         \/ \E j \in moving : /\ g.users[g.apps[j].u].n >= 2 /\ Len(rows) * (g.users[g.apps[j].u].n - 1) >= 5
                               /\ ~Independent(g, rows, j)
      THEN {"C09.shared", "C10.shared"} ELSE {})
     \cup (IF \E j \in moving : Len(rows) * g.users[g.apps[j].u].n >= 6 /\ Len(rows) >= 3 /\ Cardinality(ToSet(Patterns(g, rows, j))) = 1
           THEN {"C09.repeated", "C10.repeated"} ELSE {})
     \cup (IF (\E j \in multi : ~Independent(g, rows, j)) \/ (\E j \in rare : Meeting(g, rows, j)) THEN {"C09.shared", "C10.shared"} ELSE {})
     \cup (IF \E j \in days : Cardinality(ToSet(Patterns(g, rows, j))) = 1 THEN {"C09.repeated", "C10.repeated"} ELSE {})
     \* every preference is drawn, and not by all single users at once every day
     \cup (IF \E u \in wide : \E j \in AppsOf(g) :
                /\ g.apps[j].u = u /\ g.apps[j].pref \in 1..g.users[u].pref /\ g.apps[j].occ = 1000 /\ g.apps[j].wd = 2 /\ g.apps[j].ft > 0
                /\ Val(g.apps[j], 0) > 0
                /\ \/ counts(j) = {0}
                   \/ g.users[u].pref > 1 /\ g.users[u].n >= 10 /\ counts(j) \subseteq {0, g.users[u].n}
           THEN {"C06.preferenceDraw", "C10.preference"} ELSE {})
===============================================================================
