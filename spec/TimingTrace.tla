--------------------------- MODULE TimingTrace ---------------------------
(* Judges what the compiler made of a schedule's timing.                   *)
(* case: nodes, strat, obs: [res |-> "ok"|"reject",                        *)
(*   st |-> per sched node: starts of its items, dur |-> per node duration *)
(*   or -1 when not observable]                                            *)
EXTENDS SchedSem, Judge
VARIABLES c, ph
Obs(k) == Cases[k].obs
Verdicts(k) ==
  LET cs == Cases[k] nodes == cs.nodes info == Resolve(nodes, cs.strat)
      err == info[Len(nodes)].err
  IN IF err # "" THEN (IF cs.obs.res = "reject" THEN {"ok"} ELSE {"accepted-" \o err})
     ELSE IF cs.obs.res # "ok" THEN {"rejected-valid"}
     ELSE LET bad == {i \in DOMAIN nodes : nodes[i].k = "sched" /\ cs.obs.st[i] # <<>> /\
                        cs.obs.st[i] # info[i].st}
              badd == {i \in DOMAIN nodes : cs.obs.dur[i] # -1 /\ cs.obs.dur[i] # info[i].dur}
          IN IF bad = {} /\ badd = {} THEN {"ok"}
             ELSE (IF bad # {} THEN {"start-time"} ELSE {}) \cup
                  (IF badd # {} THEN {"duration"} ELSE {})
Init == c \in 1..Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED c
        /\ \A v \in Verdicts(c) : Verdict(c, v, Resolve(Cases[c].nodes, Cases[c].strat)[Len(Cases[c].nodes)])
Spec == Init /\ [][Next]_<<c, ph>>
=============================================================================
