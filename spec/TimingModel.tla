--------------------------- MODULE TimingModel ---------------------------
(* Design model of timing resolution. A scheduler places the operations    *)
(* of a schedule one at a time, in any order that respects references,     *)
(* then shifts everything so that nothing starts before zero. TLC checks,  *)
(* for every small schedule, that the result does not depend on the order, *)
(* that it is what SchedSem!Solve says, that every constraint is honoured  *)
(* and that a stuck scheduler means exactly a cycle.                       *)
EXTENDS SchedSem, TLC
CONSTANTS NItems, RelTimes, Durs, MaxCons
RelOne == {-4}
RelTwo == {-4, 2}
RelThree == {-4, 0, 2}

RPs == {"", "start", "center", "end"}
Con(j) == [ref : 0..NItems, rp : {"", "start", "center"}, rpn : {"", "end"}, rel : RelTimes]
ConSeqs(j) == {<<c>> : c \in Con(j)} \cup
  (IF MaxCons >= 2 THEN {<<[ref |-> 0, rp |-> "", rpn |-> "", rel |-> 0], c>> :
                           c \in [ref : 1..NItems, rp : {"start", "end"}, rpn : {""}, rel : RelTimes]}
   ELSE {})

VARIABLES items, dur, strat, placed, st, done
vars == <<items, dur, strat, placed, st, done>>
J == 1..NItems
C == ExplicitItems(items, strat)

Init ==
  /\ dur \in [J -> Durs]
  /\ strat \in {"asap", "alap"}
  /\ \E f \in [J -> UNION {ConSeqs(j) : j \in J}] :
       /\ strat = "alap" => \A j \in J : Len(f[j]) = 1
       /\ items = [j \in J |-> [n |-> j, cons |-> f[j]]]
  /\ placed = {} /\ st = [j \in J |-> 0] /\ done = FALSE

Place(j) ==
  /\ ~done /\ j \notin placed
  /\ IsRoot(C[j]) \/ Refs(C[j]) \subseteq placed
  /\ placed' = placed \cup {j}
  /\ st' = [st EXCEPT ![j] =
        IF IsRoot(C[j]) THEN 0
        ELSE MaxOf({Asked(C[j][i], st[C[j][i].ref], dur[C[j][i].ref], 0, dur[j]) : i \in DOMAIN C[j]})]
  /\ UNCHANGED <<items, dur, strat, done>>
Normalise ==
  /\ ~done /\ placed = J
  /\ LET m == MinOf({st[j] : j \in J}) IN
       st' = IF m < 0 THEN [j \in J |-> st[j] - m] ELSE st
  /\ done' = TRUE
  /\ UNCHANGED <<items, dur, strat, placed>>
Next == (\E j \in J : Place(j)) \/ Normalise
Spec == Init /\ [][Next]_vars

Sol == Solve(items, strat, dur, [j \in J |-> 0], 1)
\* confluence: every complete run ends in the solution of the specification
Confluent == done => (Sol.err = "" /\ st = Sol.st)
\* every constraint holds in the result, one of them exactly
Honoured == done => \A j \in J : IsRoot(C[j]) \/
   LET a == {Asked(C[j][i], st[C[j][i].ref], dur[C[j][i].ref], 0, dur[j]) : i \in DOMAIN C[j]}
   IN (\A x \in a : st[j] >= x) /\ st[j] \in a
StartsAtZero == done => MinOf({st[j] : j \in J}) = 0
\* a run that cannot continue is a run of a cyclic schedule, and conversely
StuckIsCycle == (~done /\ placed # J /\ ~\E j \in J \ placed : IsRoot(C[j]) \/ Refs(C[j]) \subseteq placed)
                <=> (~done /\ placed # J /\ Sol.err = "cycle" /\
                     \A j \in J \ placed : ~(IsRoot(C[j]) \/ Refs(C[j]) \subseteq placed))
NoFalseCycle == Sol.err = "cycle" => ~done
=============================================================================
