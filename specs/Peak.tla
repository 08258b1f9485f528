---------------------------------- MODULE Peak ----------------------------------
(* The peak time range of a use case: where the community could demand most,   *)
(* and when it is computed.                                                    *)
(* Powers are in tenths of watts.  The two normal draws are z1 = k/4 (peak     *)
(* time) and z2 = j/4 (enlargement); enlargements are in per cent.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils, Randomization

CONSTANTS Day, Ns, Nums, Powers, Enl, Zs, Edges, MaxUsers, MaxApps, MaxWins, Mode, Depth
VARIABLES c,      \* users: seq of [n, apps: seq of [num, p, win: seq of <<a, b>>]]
          uc,     \* [init, enl, range: {} or the set of ranges <<lo, len>> it may be]
          hist
vars == <<c, uc, hist>>

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Covers(a, t) == \E i \in DOMAIN a.win : a.win[i][1] <= t /\ t < a.win[i][2]
\* theoretical maximum demand at minute t
UserDemand(x, t) == x.n * Sum([i \in 1..Len(x.apps) |-> IF Covers(x.apps[i], t) THEN x.apps[i].num * x.apps[i].p ELSE 0], Len(x.apps))
Demand(cc, t) == Sum([i \in 1..Len(cc) |-> UserDemand(cc[i], t)], Len(cc))

\* it only changes at the edges of windows: the segments <<from, to, demand>>
EdgesOf(cc) == {0, Day} \cup UNION {UNION {UNION {{w[1], w[2]} : w \in {cc[u].apps[i].win[k] : k \in DOMAIN cc[u].apps[i].win}} : i \in DOMAIN cc[u].apps} : u \in DOMAIN cc}
NextEdge(E, e) == CHOOSE f \in E : f > e /\ \A g \in E : g > e => f <= g
Segments(cc) == LET E == EdgesOf(cc) IN {<<e, NextEdge(E, e), Demand(cc, e)>> : e \in E \ {Day}}
Top(S) == CHOOSE v \in {s[3] : s \in S} : \A s \in S : s[3] <= v
\* the peak window: minutes of highest demand, as segments
Window(cc) == LET S == Segments(cc) IN {s \in S : s[3] = Top(S)}
Size(W) == MapThenSumSet(LAMBDA s : s[2] - s[1], W)
Total(W) == MapThenSumSet(LAMBDA s : ((s[1] + s[2] - 1) * (s[2] - s[1])) \div 2, W)
First(W) == CHOOSE a \in {s[1] : s \in W} : \A s \in W : a <= s[1]
Last(W) == (CHOOSE b \in {s[2] : s \in W} : \A s \in W : s[2] <= b) - 1

\* num / den to the nearest whole number, ties either way
Abs(x) == IF x < 0 THEN -x ELSE x
Near(num, den) == LET q == num \div den IN {x \in (q - 1)..(q + 1) : 2 * Abs(num - x * den) <= den}
Times(W, k) == UNION {Near(12 * mu + k * (Last(W) - First(W)), 12) : mu \in Near(Total(W), Size(W))}
Half(pt, j, e) == {IF h < 1 THEN 1 ELSE h : h \in Near(Abs(j * e * pt), 400)}
\* the ranges <<first minute, length>> which the draws k, j may give
Ranges(cc, k, j, e) == LET W == Window(cc) IN {<<pt - h, 2 * h>> : pt \in Times(W, k), h \in UNION {Half(q, j, e) : q \in Times(W, k)}}
RangesOk(cc, k, j, e, r) == LET W == Window(cc) IN \E pt \in Times(W, k) : \E h \in Half(pt, j, e) : r = <<pt - h, 2 * h>>

\* --------------------------------------------------------------------------
Some(S) == IF Mode = "walk" THEN RandomSubset(1, S) ELSE S
Rec(o) == hist' = IF Mode = "walk" THEN Append(hist, o) ELSE hist
O(op) == [op |-> op, u |-> 0, n |-> 0, num |-> 0, p |-> 0, win |-> <<>>, e |-> 0, k |-> 0, j |-> 0]
NoUC == [made |-> FALSE, init |-> FALSE, enl |-> 0, k |-> 0, j |-> 0, of |-> <<>>]
\* the range in force is determined by the community, the draws and the enlargement at its computation
Computed(e, k, j) == [made |-> TRUE, init |-> TRUE, enl |-> e, k |-> k, j |-> j, of |-> c]
Wins == UNION {[1..n -> {w \in Edges \X Edges : w[1] < w[2]}] : n \in 1..MaxWins}
\* (the parameter keeps TLC from evaluating it only once)
RandWins(x) == [i \in 1..RandomElement(1..MaxWins) |->
               LET a == RandomElement(Edges \ {Day}) IN <<a, RandomElement({b \in Edges : b > a})>>]
Init == c = <<>> /\ uc = NoUC /\ hist = <<>>
AddUser(n) == c' = Append(c, [n |-> n, apps |-> <<>>]) /\ UNCHANGED uc
AddApp(u, a) == c' = [c EXCEPT ![u].apps = Append(@, a)] /\ UNCHANGED uc
Make(e, k, j) == uc' = Computed(e, k, j) /\ UNCHANGED c
Force(k, j) == uc' = Computed(uc.enl, k, j) /\ UNCHANGED c
ForceEnl(e, k, j) == uc' = Computed(e, k, j) /\ UNCHANGED c
Same == UNCHANGED <<c, uc>>
Ready == \A u \in DOMAIN c : c[u].apps # <<>>
\* negative numbers cannot be written in configurations
Draws == {<<a - 20, b - 20>> : a \in Zs, b \in Zs}
Ops ==
  \/ Len(c) < MaxUsers /\ \E n \in Some(Ns) : AddUser(n) /\ Rec([O("user") EXCEPT !.n = n])
  \/ c # <<>> /\ \E u \in Some(DOMAIN c), num \in Some(Nums), p \in Some(Powers) :
       /\ Len(c[u].apps) < MaxApps
       /\ \E w \in (IF Mode = "walk" THEN {RandWins(hist)} ELSE Wins) : AddApp(u, [num |-> num, p |-> p, win |-> w])
                                                               /\ Rec([O("app") EXCEPT !.u = u, !.num = num, !.p = p, !.win = w])
  \/ ~uc.made /\ c # <<>> /\ Ready /\ \E e \in Some(Enl), d \in Some(Draws) : Make(e, d[1], d[2]) /\ Rec([O("make") EXCEPT !.e = e, !.k = d[1], !.j = d[2]])
  \/ uc.made /\ Ready /\ \E d \in Some(Draws) : Force(d[1], d[2]) /\ Rec([O("force") EXCEPT !.k = d[1], !.j = d[2]])
  \/ uc.made /\ Ready /\ \E d \in Some(Draws), e \in Some(Enl), w \in Some({"forceenl", "set", "calcenl"}) :
       ForceEnl(e, d[1], d[2]) /\ Rec([O(w) EXCEPT !.e = e, !.k = d[1], !.j = d[2]])
  \/ uc.made /\ Ready /\ \E d \in Some(Draws) : Same /\ Rec([O("calc") EXCEPT !.k = d[1], !.j = d[2]])
  \/ uc.made /\ Ready /\ \E w \in Some({"gen", "par", "again"}) : Same /\ Rec(O(w))
Finish == /\ Mode = "walk" /\ Len(hist) = Depth /\ PrintT("@@SCRIPT " \o ToJson(hist))
          /\ hist' = Append(hist, O("over")) /\ UNCHANGED <<c, uc>>
Next == (Len(hist) < Depth /\ Ops) \/ Finish
Spec == Init /\ [][Next]_vars
Bound == Len(c) <= MaxUsers

\* --------------------------------------------------------------------------
MinuteWindow(cc) == {t \in 0..(Day - 1) : \A s \in 0..(Day - 1) : Demand(cc, s) <= Demand(cc, t)}
\* segments give the same window as minutes
Faithful == LET W == Window(c) IN
  /\ UNION {s[1]..(s[2] - 1) : s \in W} = MinuteWindow(c)
  /\ Size(W) = Cardinality(MinuteWindow(c))
\* with a central draw the peak time lies between the first and last minutes of the window
Central == LET W == Window(c) IN \A pt \in Times(W, 0) : First(W) <= pt /\ pt <= Last(W)
NonEmpty == uc.init => \A r \in Ranges(uc.of, uc.k, uc.j, uc.enl) : r[2] >= 2
\* only a computation changes the range in force
Kept == [][uc'.of # uc.of => uc'.of = c]_vars
===============================================================================
