--------------------------------- MODULE Seed ---------------------------------
(* The random generator as a shared resource of the program: use cases with    *)
(* and without a seed, built and driven in any order, noise in between.        *)
(* g describes the generator's state symbolically, by what happened since it   *)
(* was last set.  Every output is a function of g, of the peak time range in   *)
(* force and of what is generated; that is what reproducibility means.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

CONSTANTS Models, Seeds, Ways, Modes, Exts, Slots, Depth, Log
VARIABLES g, slot, s, outs, hist
vars == <<g, slot, s, outs, hist>>
NoSlot == [model |-> "", seed |-> "", way |-> "", mode |-> "", init |-> FALSE, peak |-> ""]

(* what each operation does to g and which term its output has *)
InitTerm(gg, x) == ToString(<<gg, "init", x.model>>)
AfterInit(gg, x) == Append(gg, "init " \o x.model)
\* a parallel generation draws a seed per task, if it has a seed at all
How(x) == IF x.mode = "par" /\ x.seed = "" THEN "parfree" ELSE x.mode
GenTerm(gg, x) == ToString(<<gg, "gen", x.model, How(x), x.peak>>)
AfterGen(gg, x) == Append(gg, "gen " \o x.model \o " " \o How(x) \o " " \o x.peak)
Seeded(gg, x) == IF x.seed = "" THEN gg ELSE <<"seed " \o x.seed>>
\* the workers of an unseeded parallel generation have generators of their own
Determined(x) == ~(x.mode = "par" /\ x.seed = "")

(* a concrete generator, to see that the terms determine its state *)
Draw(v) == (3 * v + 1) % 7
SeedSeq == <<"0", "1", "-7", "big", "5">>
Hash(str) == CHOOSE i \in 1..Len(SeedSeq) : SeedSeq[i] = str
\* every combination when exploring, a few at random when writing scripts
Some(S) == IF Log THEN RandomSubset(3, S) ELSE S

Start == /\ slot = [x \in Slots |-> NoSlot] /\ outs = {} /\ hist = <<>>
Init == Start /\ s \in 0..2 /\ g = <<"start " \o ToString(s)>>
Rec(o) == hist' = IF Log THEN Append(hist, o) ELSE hist
Out(t, v) == outs' = IF Log THEN outs ELSE outs \cup {<<t, v>>}
Tick == TLCGet("level") <= Depth

New(k, m, sd, w, mo) ==
  LET x == [NoSlot EXCEPT !.model = m, !.seed = sd, !.way = w, !.mode = mo]
      g1 == Seeded(g, x)
      s1 == IF sd = "" THEN s ELSE Hash(sd)
  IN IF w = "ctor"
     THEN /\ g' = AfterInit(g1, x) /\ s' = Draw(s1) /\ Out(InitTerm(g1, x), s1)
          /\ slot' = [slot EXCEPT ![k] = [x EXCEPT !.init = TRUE, !.peak = InitTerm(g1, x)]]
     ELSE g' = g1 /\ s' = s1 /\ slot' = [slot EXCEPT ![k] = x] /\ UNCHANGED outs
DoInit(k) ==
  LET x == slot[k] IN
  /\ g' = AfterInit(g, x) /\ s' = Draw(s) /\ Out(InitTerm(g, x), s)
  /\ slot' = [slot EXCEPT ![k].init = TRUE, ![k].peak = InitTerm(g, x)]
Gen(k) ==
  LET x0 == slot[k]
      g1 == IF x0.init THEN g ELSE AfterInit(g, x0)
      x == IF x0.init THEN x0 ELSE [x0 EXCEPT !.init = TRUE, !.peak = InitTerm(g, x0)]
      s1 == IF x0.init THEN s ELSE Draw(s)
  IN /\ g' = AfterGen(g1, x) /\ s' = Draw(s1)
     /\ slot' = [slot EXCEPT ![k] = x]
     /\ IF Determined(x) THEN Out(GenTerm(g1, x), s1) ELSE UNCHANGED outs
Noise(n) == g' = Append(g, "noise " \o ToString(n)) /\ s' = (IF n = 1 THEN Draw(s) ELSE Draw(Draw(s))) /\ UNCHANGED <<slot, outs>>
Ext(x) == g' = <<"ext " \o x>> /\ s' = Hash(x) /\ UNCHANGED <<slot, outs>>

O(op, k, m, sd, w, mo, n) == [op |-> op, s |-> k, model |-> m, seed |-> sd, way |-> w, mode |-> mo, n |-> n]
Rare == ~Log \/ RandomElement(1..5) = 1
Ops ==
  \/ \E c \in Some(Slots \X Models \X (Seeds \cup {""}) \X Ways \X Modes) :
       New(c[1], c[2], c[3], c[4], c[5]) /\ Rec(O("new", c[1], c[2], c[3], c[4], c[5], 0))
  \/ \E k \in Slots : slot[k].model # "" /\ (slot[k].way # "days" \/ slot[k].init) /\ DoInit(k) /\ Rec(O("init", k, "", "", "", "", 0))
  \/ \E k \in Slots, f \in {0, 1} : slot[k].model # "" /\ (slot[k].init \/ slot[k].way = "days")
       /\ Gen(k) /\ Rec(O("gen", k, "", "", "", "", f))
  \/ \E n \in {1, 2} : Rare /\ Noise(n) /\ Rec(O("noise", 0, "", "", "", "", n))
  \/ \E x \in Exts : Rare /\ Ext(x) /\ Rec(O("ext", 0, "", x, "", "", 0))
Finish == Log /\ Len(hist) = Depth /\ PrintT("@@SCRIPT " \o ToJson(hist)) /\ hist' = Append(hist, O("end", 0, "", "", "", "", 0)) /\ UNCHANGED <<g, slot, s, outs>>
Next == (Tick /\ Ops) \/ Finish
Spec == Init /\ [][Next]_vars
\* the terms determine the outputs
Reproducible == \A a, b \in outs : a[1] = b[1] => a[2] = b[2]
\* nothing but a seed sets the generator
Untouched == [][\A k \in Slots : slot'[k] # slot[k] /\ slot'[k].model # "" /\ slot'[k].seed = "" => Len(g') >= Len(g)]_vars
===============================================================================
