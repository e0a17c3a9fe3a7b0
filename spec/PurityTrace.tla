---------------------------- MODULE PurityTrace ----------------------------
(* Judges a recorded history of compilations. Each event carries the step   *)
(* of Purity it replays (do, s, c, ...), the fingerprint of the result (0   *)
(* for none), and the fingerprints of all schedules, configurations and     *)
(* devices after it; `ref` gives the fingerprints of results obtained for   *)
(* a content in a process that had compiled nothing before.                 *)
EXTENDS Judge, FiniteSets
Objs == [s \in 1 .. 3 |-> CASE s = 1 -> {1, 2} [] s = 2 -> {2, 3} [] OTHER -> {4}]
Start == [grown |-> <<0, 0, 0>>, conf |-> <<0, 0>>, tune |-> 0, touched |-> {}, memo |-> <<>>, bad |-> {},
          sch |-> <<0, 0, 0>>, cfg |-> <<0, 0>>, dev |-> 0]
Lookup(memo, k) == {memo[i][2] : i \in {i \in DOMAIN memo : memo[i][1] = k}}
\* a step: what the contents are afterwards
Apply(st, e) ==
  [st EXCEPT !.grown = IF e.do = "grow" THEN [@ EXCEPT ![e.s] = @ + 1] ELSE @,
             !.conf = IF e.do = "configure" THEN [@ EXCEPT ![e.c] = 1 - @] ELSE @,
             !.tune = IF e.do = "retune" THEN 1 - @ ELSE @,
             !.touched = IF e.do = "inplace" THEN @ \cup Objs[e.s] ELSE @]
Key(st, e) == <<e.s, st.grown[e.s], e.c, st.conf[e.c], st.tune>>
Fault(cl, i, what) == {<<cl, ToString(i) \o ": " \o what>>}
Compiles(e) == e.do \in {"compile", "inplace"}
Check(st, e, i) ==
  (IF Compiles(e) /\ Lookup(st.memo, Key(st, e)) \notin {{}, {e.res}}
     THEN Fault("result-differs", i, ToString(Key(st, e)) \o " " \o e.do \o " " \o e.via) ELSE {})
  \cup UNION {IF e.sch[s] # st.sch[s] /\ st.sch[s] # 0 /\ ~(e.do = "grow" /\ e.s = s) /\ Apply(st, e).touched \cap Objs[s] = {}
                THEN Fault("schedule-changed", i, ToString(s) \o " by " \o e.do \o " of " \o ToString(e.s) \o " " \o e.via) ELSE {} : s \in 1 .. 3}
  \cup UNION {IF e.cfg[c] # st.cfg[c] /\ st.cfg[c] # 0 /\ ~(e.do = "configure" /\ e.c = c) /\ e.do # "retune"
                THEN Fault("configuration-changed", i, ToString(c) \o " by " \o e.do \o " with " \o ToString(e.c) \o " " \o e.via) ELSE {} : c \in 1 .. 2}
  \cup (IF e.dev # st.dev /\ st.dev # 0 /\ e.do \notin {"retune", "configure"}
          THEN Fault("device-changed", i, e.do \o " " \o e.via) ELSE {})
StepOf(st, e, i) ==
  LET n == Apply(st, e)
  IN  [n EXCEPT !.bad = @ \cup Check(st, e, i), !.sch = e.sch, !.cfg = e.cfg, !.dev = e.dev,
                !.memo = IF Compiles(e) THEN Append(@, <<Key(st, e), e.res>>) ELSE @]
RECURSIVE Run(_, _, _)
Run(st, evs, i) == IF i > Len(evs) THEN st ELSE Run(StepOf(st, evs[i], i), evs, i + 1)
\* results of the clean process
Ref(c) == [i \in DOMAIN c.ref |-> <<c.ref[i].key, c.ref[i].res>>]
Bad(c) == Run([Start EXCEPT !.memo = Ref(c)], c.ev, 1).bad
Out(k) == LET b == Bad(Cases[k])
          IN  IF b = {} THEN Verdict(k, "ok", "") ELSE \A x \in b : Verdict(k, x[1], x[2])
VARIABLE x
Init == x = 0 /\ \A k \in DOMAIN Cases : Out(k)
Next == UNCHANGED x
=============================================================================
