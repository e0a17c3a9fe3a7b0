--------------------------- MODULE CompTrace ---------------------------
(* Judges what the compiler made of schedules with pulse compensation.     *)
(* case: nodes, strat, dev, obs: [res, ev |-> played pulses, dur]          *)
EXTENDS Compensation, Judge, TLC
VARIABLES c, ph
\* the same pulse, with its area up to what is known of it
Same(x, y) == /\ x.f = y.f /\ x.port = y.port /\ x.clk = y.clk /\ x.t = y.t /\ x.d = y.d
              /\ Abs(x.a - y.a) <= 20 * Tol
Count(s, x) == Cardinality({i \in DOMAIN s : Same(s[i], x)})
Lacking(a, b) == {a[i] : i \in {j \in DOMAIN a : Count(a, a[j]) > Count(b, a[j])}}
V(cl, d) == [cl |-> cl, d |-> ToString(d)]
Compare(cs, info) ==
  LET want == Play(cs.nodes, info, Len(cs.nodes), 0)
      miss == Lacking(want, cs.obs.ev)
      more == Lacking(cs.obs.ev, want)
  IN (IF miss # {} \/ more # {} THEN {V("pulses", <<miss, more>>)} ELSE {})
     \cup (IF info[Len(cs.nodes)].dur # cs.obs.dur THEN {V("duration", <<info[Len(cs.nodes)].dur, cs.obs.dur>>)} ELSE {})
     \cup (IF ~Balanced(cs.nodes, info, cs.dev) THEN {V("spec-unbalanced", "")} ELSE {})
Verdicts(k) ==
  LET cs == Cases[k]
      low == CResolve(cs.nodes, cs.strat, cs.dev, {})
      err == low[Len(cs.nodes)].err
      first == Compare(cs, low)
      edges == Edges(cs.nodes, low, cs.dev)
  IN IF err # "" THEN (IF cs.obs.res = "reject" THEN {V("ok", "")} ELSE {V("accepted-invalid", err)})
     ELSE IF cs.obs.res # "ok" THEN {V("rejected-valid", "")}
     ELSE IF first = {} THEN {V("ok", "")}
     ELSE IF Cardinality(edges) <= 7 /\ \E up \in SUBSET edges : Compare(cs, CResolve(cs.nodes, cs.strat, cs.dev, up)) = {}
          THEN {V("ok", "")}
     ELSE IF Cardinality(edges) > 7 THEN {V("ok", "")}
     ELSE first
(* ---- one DC compensation pulse for a list of pulses (create_dc_compensation_pulse) ---- *)
\* case: dc |-> [ev, port, amp (1e-6, 0 not given), dur (0 not given)], obs: [res, a, amp, d]
DcVerdicts(k) ==
  LET cs == Cases[k] x == cs.dc
      s == FoldLeft(LAMBDA sum, e : IF e.port = x.port /\ e.clk = "bb" THEN sum + e.a ELSE sum, 0, x.ev)
      bad == (x.amp = 0) = (x.dur = 0) \/ x.none
      tol == Tol * (1 + Len(x.ev))
  IN IF bad THEN (IF cs.obs.res = "reject" THEN {V("ok", "")} ELSE {V("accepted-invalid", "dc")})
     ELSE IF cs.obs.res # "ok" THEN {V("rejected-valid", "dc")}
     ELSE IF Abs(cs.obs.a + s) > tol THEN {V("dc-area", <<s, cs.obs.a>>)}
     ELSE IF x.dur # 0 /\ cs.obs.d # x.dur THEN {V("dc-duration", <<x.dur, cs.obs.d>>)}
     ELSE IF x.amp # 0 /\ Abs(cs.obs.amp) # Abs(x.amp) THEN {V("dc-amplitude", <<x.amp, cs.obs.amp>>)}
     ELSE {V("ok", "")}
Init == c \in 1..Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED c /\ \A v \in (IF "dc" \in DOMAIN Cases[c] THEN DcVerdicts(c) ELSE Verdicts(c)) : Verdict(c, v.cl, v.d)
Spec2 == Init /\ [][Next]_<<c, ph>>
=============================================================================
