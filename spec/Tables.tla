------------------------------ MODULE Tables ------------------------------
(* Judges what a compiled schedule tells about itself: its timing table,     *)
(* the ports and clocks it uses, its acquisitions, its duration and the      *)
(* signals that a diagram of it shows.                                       *)
(* node "op" has rows: <<[port, clock, t0, d, acq, wf, a]>> one per pulse and *)
(* acquisition (a: which acquisition, whenever it starts), id (its identity), *)
(* and ev: the signals it makes                                              *)
(* ([e |-> "p"|"w"|"o", pc, t0, d, I, Q], see Q1Trace).                      *)
(* case: nodes, strat, ports (of the port-clocks), tabs, obs                 *)
EXTENDS SchedSem, Judge
VARIABLES c, ph
Row(e, nd, r) == [id |-> nd.id, port |-> r.port, clock |-> r.clock, t |-> e.t + r.t0, d |-> r.d, acq |-> r.acq, wf |-> r.wf]
RECURSIVE RowsOf(_, _, _)
RowsOf(nodes, tl, i) ==
  IF i > Len(tl) THEN <<>>
  ELSE LET nd == nodes[tl[i].n]
       IN  [j \in DOMAIN nd.rows |-> Row(tl[i], nd, nd.rows[j])] \o RowsOf(nodes, tl, i + 1)
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
\* the operations of the schedule, played or not, as a set of nodes
RECURSIVE Below(_, _)
Below(nodes, i) ==
  LET nd == nodes[i] IN
  CASE nd.k = "op" -> {i}
    [] nd.k = "sched" -> UNION {Below(nodes, nd.items[j].n) : j \in DOMAIN nd.items}
    [] OTHER -> Below(nodes, nd.body)
Rows(nodes) == UNION {Range(nodes[i].rows) : i \in Below(nodes, Len(nodes))}
PortClocks(nodes) == {<<r.port, r.clock>> : r \in {x \in Rows(nodes) : x.port # "" /\ x.clock # ""}}
Acquisitions(nodes) == {r.a : r \in {x \in Rows(nodes) : x.acq}}
(* clocks: a schedule may register its clocks (node "sched": res,            *)
(* <<[name, freq]>>); the definitions agree, and every clock that is used is *)
(* defined somewhere                                                         *)
RECURSIVE Scheds(_, _)
Scheds(nodes, i) ==
  LET nd == nodes[i] IN
  CASE nd.k = "op" -> {}
    [] nd.k = "sched" -> {i} \cup UNION {Scheds(nodes, nd.items[j].n) : j \in DOMAIN nd.items}
    [] OTHER -> Scheds(nodes, nd.body)
Defined(nodes) == UNION {Range(nodes[i].res) : i \in Scheds(nodes, Len(nodes))}
Used(nodes) == {r.clock : r \in Rows(nodes)} \ {"", "cl0.baseband", "digital"}
ClockErr(nodes) ==
  LET D == Defined(nodes) IN
  IF \E x \in D, y \in D : x.name = y.name /\ x.freq # y.freq THEN "inconsistent-clock"
  ELSE IF Used(nodes) \ {x.name : x \in D} # {} THEN "unknown-clock"
  ELSE ""
------------------------------------------------------------------------------
(* the signal at time t on a port: every pulse that plays, and for every     *)
(* clock the voltage offset that was set last (of those set at one time, the *)
(* one that stands last)                                                     *)
Sig(cs, e, ev, t) ==
  LET at == t - (e.t + ev.t0) IN
  IF ev.e \notin {"p", "w"} \/ at < 0 \/ at >= ev.d THEN <<0, 0>>
  ELSE IF ev.e = "p" THEN <<ev.I, ev.Q>> ELSE <<cs.tabs[ev.I][at + 1], cs.tabs[ev.Q][at + 1]>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE y \in S : TRUE r == Sum(f, S \ {x}) IN <<f[x][1] + r[1], f[x][2] + r[2]>>
Signal(cs, tl, port, t) ==
  LET E == {<<i, j>> \in UNION {{<<a, b>> : b \in DOMAIN cs.nodes[tl[a].n].ev} : a \in DOMAIN tl} :
              LET ev == cs.nodes[tl[i].n].ev[j] IN ev.e \in {"p", "w", "o"} /\ cs.ports[ev.pc] = port}
      Ev(x) == cs.nodes[tl[x[1]].n].ev[x[2]]
      T(x) == tl[x[1]].t + Ev(x).t0
      Pulses == {x \in E : Ev(x).e # "o" /\ T(x) <= t /\ t < T(x) + Ev(x).d}
      Set == {x \in E : Ev(x).e = "o" /\ T(x) <= t}
      Later(x, y) == \/ T(x) > T(y)
                     \/ T(x) = T(y) /\ x[1] > y[1]
                     \/ T(x) = T(y) /\ x[1] = y[1] /\ x[2] > y[2]
      Last == {x \in Set : ~\E y \in Set : Ev(y).pc = Ev(x).pc /\ y # x /\ Later(y, x)}
      f == [x \in Pulses \cup Last |-> IF x \in Last THEN <<Ev(x).I, Ev(x).Q>> ELSE Sig(cs, tl[x[1]], Ev(x), t)]
  IN  [v |-> Sum(f, Pulses \cup Last), n |-> Cardinality(Pulses \cup Last)]
Near(a, b, n) == a - b <= n + 1 /\ b - a <= n + 1
------------------------------------------------------------------------------
Verdicts(k) ==
  LET cs == Cases[k] nodes == cs.nodes info == Resolve(nodes, cs.strat) o == cs.obs
      err == IF info[Len(nodes)].err # "" THEN info[Len(nodes)].err ELSE ClockErr(nodes)
  IN  IF err # "" THEN (IF o.res = "reject" THEN {<<"ok", 0>>} ELSE {<<"accepted-" \o err, 0>>})
      ELSE IF o.res # "ok" THEN {<<"rejected-valid", 0>>}
      ELSE LET tl == Timeline(nodes, info)
               want == RowsOf(nodes, tl, 1)
               diff == {x \in Range(want) \cup Range(o.rows) : Count(want, x) # Count(o.rows, x)}
               bad == {i \in DOMAIN o.sig : LET s == o.sig[i] w == Signal(cs, tl, s.port, s.t)
                                            IN ~(Near(w.v[1], s.I, w.n) /\ Near(w.v[2], s.Q, w.n))}
               wanted == {[port |-> nodes[tl[i].n].rows[j].port, t |-> tl[i].t + nodes[tl[i].n].rows[j].t0, d |-> nodes[tl[i].n].rows[j].d] :
                           <<i, j>> \in UNION {{<<a, b>> : b \in {y \in DOMAIN nodes[tl[a].n].rows : nodes[tl[a].n].rows[y].acq}} : a \in DOMAIN tl}}
           IN  (IF diff # {} THEN {<<"timing-table", [differ |-> diff, want |-> Len(want), got |-> Len(o.rows)]>>} ELSE {})
               \cup (IF \E i \in 2 .. Len(o.rows) : o.rows[i - 1].t > o.rows[i].t THEN {<<"table-order", 0>>} ELSE {})
               \cup (IF o.dur # info[Len(nodes)].dur THEN {<<"duration", <<o.dur, info[Len(nodes)].dur>>>>} ELSE {})
               \cup (IF Range(o.clk) # Defined(nodes) THEN {<<"clocks", <<o.clk, Defined(nodes)>>>>} ELSE {})
               \cup (IF Range(o.pcs) # PortClocks(nodes) THEN {<<"port-clocks", <<o.pcs, PortClocks(nodes)>>>>} ELSE {})
               \cup (IF Range(o.acqs) # Acquisitions(nodes) \/ Len(o.acqs) # Cardinality(Acquisitions(nodes))
                       THEN {<<"acquisitions", <<o.acqs, Acquisitions(nodes)>>>>} ELSE {})
               \cup (IF cs.windows /\ (Range(o.win) # wanted) THEN {<<"diagram-acquisitions", <<o.win, wanted>>>>} ELSE {})
               \cup {<<"diagram-signal", [seen |-> o.sig[i], want |-> Signal(cs, tl, o.sig[i].port, o.sig[i].t)]>> : i \in bad}
Init == c \in 1..Len(Cases) /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED c
        /\ LET v == Verdicts(c) IN IF v \subseteq {<<"ok", 0>>} THEN Verdict(c, "ok", "") ELSE \A x \in v : Verdict(c, x[1], ToString(x[2]))
Spec == Init /\ [][Next]_<<c, ph>>
=============================================================================
