---------------------------- MODULE GateTrace ----------------------------
(* Judges what the device-level compilation made of a gate-level schedule. *)
(* case: dev, edges, clocks (record clock -> kHz, -1 undefined), nodes,    *)
(*   strat, obs: [res, ev (events in order of the listing, then of time),  *)
(*   clocks (sequence of <<clock, kHz>>), dur]                             *)
EXTENDS Gates, Judge
VARIABLES c, ph

(* ---- the frames: what each event means once the clocks are known ---- *)
\* acc: [ph: clock -> half degrees, fr: clock -> kHz or NoFreq, out]
Step(acc, e) ==
  CASE e.f = "shift" -> [acc EXCEPT !.ph[e.clock] = (@ + e.v[1]) % 720]
    [] e.f = "resetphase" -> [acc EXCEPT !.ph[e.clock] = 0, !.out = Append(@, e)]
    [] e.f = "setfreq" -> [acc EXCEPT !.fr[e.clock] = e.v[1], !.out = Append(@, e)]
    [] OTHER -> [acc EXCEPT !.out =
                   Append(@, [e EXCEPT !.v = <<acc.ph[e.clock], acc.fr[e.clock]>> \o @])]
Frames(evs, clocks) ==
  FoldLeft(Step, [ph |-> [k \in clocks |-> 0], fr |-> [k \in clocks |-> NoFreq], out |-> <<>>], evs)
ClocksOf(evs) == {evs[i].clock : i \in DOMAIN evs}

\* events in order of time; simultaneous ones in order of the listing
ByTime(evs) ==
  LET idx == [i \in DOMAIN evs |-> i]
      ord == SortSeq(idx, LAMBDA a, b : evs[a].t < evs[b].t \/ (evs[a].t = evs[b].t /\ a < b))
  IN [i \in DOMAIN evs |-> evs[ord[i]]]

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
\* events of a that b has less often
Lacking(a, b) == {a[i] : i \in {j \in DOMAIN a : Count(a, a[j]) > Count(b, a[j])}}

Verdicts(k) ==
  LET cs == Cases[k]
      gates == [i \in DOMAIN cs.nodes |->
                  IF cs.nodes[i].k = "op" THEN Gate(cs.dev, cs.edges, cs.nodes[i].g) ELSE GErr("")]
      nodes == [i \in DOMAIN cs.nodes |->
                  IF cs.nodes[i].k = "op"
                  THEN [k |-> "op", dur |-> gates[i].dur, nod |-> gates[i].nod] ELSE cs.nodes[i]]
      errs == {gates[i].err : i \in DOMAIN gates} \ {""}
      info == Resolve(nodes, cs.strat)
      line == Timeline(nodes, info)
      flat == FlattenSeq([i \in DOMAIN line |->
                LET evs == gates[line[i].n].ev
                IN [j \in DOMAIN evs |-> [evs[j] EXCEPT !.t = @ + line[i].t]]])
      used == ClocksOf(flat) \ {Base, ""}
      undef == {x \in used : x \notin DOMAIN cs.clocks \/ cs.clocks[x] = -1}
      all  == ClocksOf(flat) \cup ClocksOf(cs.obs.ev)
      want == Frames(ByTime(flat), all)
      got  == Frames(ByTime(cs.obs.ev), all)
      miss == Lacking(want.out, got.out)
      more == Lacking(got.out, want.out)
      badc == {i \in DOMAIN cs.obs.clocks : cs.obs.clocks[i][1] \in DOMAIN cs.clocks
                                            /\ cs.obs.clocks[i][2] # cs.clocks[cs.obs.clocks[i][1]]}
      lost == {x \in used : \A i \in DOMAIN cs.obs.clocks : cs.obs.clocks[i][1] # x}
      V(cl, d) == [cl |-> cl, d |-> d]
  IN IF errs # {} THEN (IF cs.obs.res = "reject" THEN {V("ok", "")} ELSE {V("accepted-invalid", errs)})
     ELSE IF undef # {} THEN (IF cs.obs.res = "reject" THEN {V("ok", "")} ELSE {V("accepted-undefined-clock", undef)})
     ELSE IF cs.obs.res # "ok" THEN {V("rejected-valid", "")}
     ELSE LET bad == (IF miss # {} THEN {V("missing", <<miss, more>>)} ELSE {})
                     \cup (IF miss = {} /\ more # {} THEN {V("unexpected", more)} ELSE {})
                     \cup (IF want.ph # got.ph THEN {V("final-phase", <<want.ph, got.ph>>)} ELSE {})
                     \cup (IF want.fr # got.fr THEN {V("final-frequency", <<want.fr, got.fr>>)} ELSE {})
                     \cup (IF info[Len(nodes)].dur # cs.obs.dur
                           THEN {V("duration", <<info[Len(nodes)].dur, cs.obs.dur>>)} ELSE {})
                     \cup (IF badc # {} \/ lost # {} THEN {V("clock-frequency", <<badc, lost>>)} ELSE {})
          IN IF bad = {} THEN {V("ok", "")} ELSE bad
Init == c \in 1..Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED c /\ \A v \in Verdicts(c) : Verdict(c, v.cl, v.d)
Spec2 == Init /\ [][Next]_<<c, ph>>
=============================================================================
