----------------------------- MODULE ParallelPool -----------------------------
(* Parallel generation: the tasks (one per day, single user and appliance) are *)
(* handed out in chunks to worker processes, which finish in any order; the    *)
(* results are received in order and added to the day they belong to.          *)
(* Every worker has its own random generator; with a seed every task brings    *)
(* its own.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS Workers, Chunks, ChunkSize, Days, Seeded, Log
VARIABLES next,       \* next chunk to hand out
          busy,       \* worker -> chunk, 0 if idle
          done,       \* chunks finished, waiting to be received
          got,        \* chunks received (always a prefix)
          acc,        \* day -> sequence of <<task, randomness it was computed from>>
          used,       \* worker -> number of tasks computed so far
          res,        \* task -> randomness it was computed from
          sched       \* history of <<action, worker>>
vars == <<next, busy, done, got, acc, used, res, sched>>

N == Chunks * ChunkSize
PerDay == N \div Days
DayOf(t) == ((t - 1) \div PerDay) + 1
Tasks(c) == [k \in 1..ChunkSize |-> (c - 1) * ChunkSize + k]
W == 1..Workers

Init == /\ next = 1 /\ busy = [w \in W |-> 0] /\ done = {} /\ got = 0
        /\ acc = [x \in 1..Days |-> <<>>] /\ used = [w \in W |-> 0] /\ sched = <<>>
        /\ res = [t \in 1..N |-> <<"none">>]
Hist(a, w) == sched' = IF Log THEN Append(sched, <<a, w - 1>>) ELSE sched
Take(w) == /\ busy[w] = 0 /\ next <= Chunks
           /\ busy' = [busy EXCEPT ![w] = next] /\ next' = next + 1
           /\ Hist("take", w)
           /\ UNCHANGED <<done, got, acc, used, res>>
Finish(w) == /\ busy[w] # 0
             /\ done' = done \cup {busy[w]} /\ busy' = [busy EXCEPT ![w] = 0]
             /\ res' = [t \in 1..N |-> IF \E k \in 1..ChunkSize : Tasks(busy[w])[k] = t
                                       THEN IF Seeded THEN <<"task", t>>
                                            ELSE <<"worker", w, used[w] + t - (busy[w] - 1) * ChunkSize>>
                                       ELSE res[t]]
             /\ used' = [used EXCEPT ![w] = @ + ChunkSize]
             /\ Hist("finish", w)
             /\ UNCHANGED <<next, got, acc>>
Receive == /\ got + 1 \in done
           /\ got' = got + 1 /\ done' = done \ {got + 1}
           /\ acc' = FoldLeft(LAMBDA a, t : [a EXCEPT ![DayOf(t)] = Append(@, <<t, res[t]>>)], acc, Tasks(got + 1))
           /\ UNCHANGED <<next, busy, used, res, sched>>
Next == (\E w \in W : Take(w) \/ Finish(w)) \/ Receive
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Final == got = Chunks
\* every task exactly once, on its own day, in the order of the tasks
OnceEach == Final => \A x \in 1..Days : [k \in 1..Len(acc[x]) |-> acc[x][k][1]] = [k \in 1..PerDay |-> (x - 1) * PerDay + k]
Never2 == \A x \in 1..Days : \A i, j \in 1..Len(acc[x]) : i # j => acc[x][i][1] # acc[x][j][1]
OwnDay == \A x \in 1..Days : \A i \in 1..Len(acc[x]) : DayOf(acc[x][i][1]) = x
\* no two tasks are computed from the same randomness
Independent == \A t1, t2 \in 1..N : t1 # t2 /\ res[t1] # <<"none">> => res[t1] # res[t2]
\* with a seed the result does not depend on the schedule
Reproducible == Final /\ Seeded => \A x \in 1..Days : \A i \in 1..Len(acc[x]) : acc[x][i][2] = <<"task", acc[x][i][1]>>
Ends == <>Final
\* prints every schedule
Emit == Final /\ Log => PrintT("@@SCHED " \o ToJson(sched))
===============================================================================
