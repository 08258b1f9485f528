----------------------------- MODULE OutcomeConf -----------------------------
(* Conformance of the real code with ApplianceDay on small configurations: the *)
(* set of outcomes of a day which the model can reach and the set the real     *)
(* code produces over all its draws are the same (seen through the projection  *)
(* which belongs to the property PROP).                                        *)
EXTENDS ApplianceDay, Json, IOUtils

FileCfgs == JsonDeserialize(IOEnv.CFGS)
Impl == JsonDeserialize(IOEnv.IMPL)      \* k -> [out, complete, errors (set of kinds)]
PROP == IOEnv.PROP

\* what the property looks at
Pairs(s) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2]>>]
Proj(o) ==
  CASE PROP = "C01" -> Blocks(o)
    [] PROP = "C02" -> <<RSum(o), OnTime(o)>>
    [] PROP = "C03" -> <<Blocks(o), Blocks(OnRuns(o))>>
    [] PROP = "C06" -> o # <<>>
    [] OTHER -> o
ImplSet == [k \in 1..Len(Impl) |-> {Proj(Impl[k].out[i]) : i \in 1..Len(Impl[k].out)}]
ImplErr == [k \in 1..Len(Impl) |-> ToSet(Impl[k].errors)]

ASSUME \A k \in 1..Len(Impl) : TLCSet(2 * k, {}) /\ TLCSet(2 * k + 1, FALSE)

\* collects what the model reaches (evaluated once per distinct state)
Collect ==
  /\ pc = "done" => TLCSet(2 * cfg.k, TLCGet(2 * cfg.k) \cup {Proj(RunsOf(prof))})
  /\ pc = "error" => TLCSet(2 * cfg.k + 1, TRUE)

SomeOf(S) == IF S = {} THEN <<>> ELSE CHOOSE x \in S : TRUE
Report(k) ==
  LET M == TLCGet(2 * k)
      I == ImplSet[k]
      extra == I \ M
      missing == IF Impl[k].complete THEN M \ I ELSE {}
      fails == (IF extra # {} THEN {"notInModel"} ELSE {})
               \cup (IF missing # {} THEN {"neverProduced"} ELSE {})
               \cup (IF ImplErr[k] \ {"fit"} # {} THEN ImplErr[k] \ {"fit"} ELSE {})
               \cup (IF "fit" \in ImplErr[k] /\ ~TLCGet(2 * k + 1) THEN {"errorWithoutReason"} ELSE {})
               \cup (IF "fit" \notin ImplErr[k] /\ Impl[k].complete /\ TLCGet(2 * k + 1) THEN {"errorMissing"} ELSE {})
  IN fails = {} \/ PrintT("@@FAIL " \o ToJson([k |-> k, clauses |-> fails, notInModel |-> SomeOf(extra), neverProduced |-> SomeOf(missing)]))
Totals == PrintT("@@STAT " \o ToJson([cfgs |-> Len(Impl),
            model |-> FoldLeft(LAMBDA a, k : a + Cardinality(TLCGet(2 * k)), 0, [k \in 1..Len(Impl) |-> k]),
            impl |-> FoldLeft(LAMBDA a, k : a + Cardinality(ImplSet[k]), 0, [k \in 1..Len(Impl) |-> k])]))
Agree == (\A k \in 1..Len(Impl) : Report(k)) /\ Totals
===============================================================================
