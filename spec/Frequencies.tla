------------------------- MODULE Frequencies -------------------------
(* Which local-oscillator (LO) and intermediate frequencies (IF) a         *)
(* configuration determines.                                               *)
(* user: [lo, clock, down, mix, fl, lof, fi, iff]: the port-clock is driven *)
(*   by oscillator lo; down >= 0: the downconverter frequency; mix: the LO  *)
(*   mixes with the signal (otherwise the LO itself is at the clock         *)
(*   frequency); fl/fi: the LO/IF is fixed to lof/iff.                      *)
(* Declaratively: Status(us) and Sol(us). Operationally: a machine that     *)
(* takes the users in any order; TLC checks that every order ends in the    *)
(* declared solution (FreqModel.cfg).                                       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
Target(u) == IF u.down >= 0 THEN u.down - u.clock ELSE u.clock
BadDown(u) == u.down >= 0 /\ u.down < u.clock
Los(us) == {us[i].lo : i \in DOMAIN us}
\* what the configuration says about oscillator l
Says(us, l) ==
  {us[i].lof : i \in {j \in DOMAIN us : us[j].lo = l /\ us[j].mix /\ us[j].fl}}
  \cup {Target(us[i]) - us[i].iff : i \in {j \in DOMAIN us : us[j].lo = l /\ us[j].mix /\ us[j].fi}}
  \cup {Target(us[i]) : i \in {j \in DOMAIN us : us[j].lo = l /\ ~us[j].mix}}
Contradicts(us) == \E l \in Los(us) : Cardinality(Says(us, l)) > 1
Undetermined(us) ==
  \/ \E l \in Los(us) : Says(us, l) = {}
  \/ \E i \in DOMAIN us : ~us[i].mix /\ ~us[i].fi
Status(us) == IF \E i \in DOMAIN us : BadDown(us[i]) THEN "bad"
              ELSE IF Contradicts(us) THEN "contradiction"
              ELSE IF Undetermined(us) THEN "undetermined" ELSE "ok"
LoOf(us, l) == CHOOSE v \in Says(us, l) : TRUE
IfOf(us, i) == IF us[i].mix THEN Target(us[i]) - LoOf(us, us[i].lo) ELSE us[i].iff
\* after the clock of user i has been set to f
IfAt(us, i, f) == IfOf(us, i) + (IF us[i].down >= 0 THEN us[i].clock - f ELSE f - us[i].clock)
\* nobody has to look at another port-clock's configuration, except at its LO frequency
Local(us) == \A i \in DOMAIN us : us[i].mix => us[i].fi \/ \E j \in DOMAIN us : us[j].lo = us[i].lo /\ us[j].mix /\ us[j].fl
=============================================================================
