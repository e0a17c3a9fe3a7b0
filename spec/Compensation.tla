-------------------------- MODULE Compensation --------------------------
(* Pulse compensation: a body followed, on every compensated port, by one  *)
(* square pulse that cancels the area of everything the body plays there.  *)
(*                                                                         *)
(* nodes: as in SchedSem, and                                              *)
(*   [k |-> "comp", body, ports |-> <<[port, max]>>, grid, els]            *)
(*     max: largest amplitude (1e-6), grid: ticks, els: names of device    *)
(*     elements (<<>>: ports and grid are given)                           *)
(*   op nodes carry ev: <<[f, port, clk, t, d, a]>>                        *)
(*     f "offset" (a voltage offset), else the shape; clk "bb" baseband;   *)
(*     a: area in 1e-6 per nanosecond                                      *)
(* A choice `up` says which durations that fall on the edge of the time    *)
(* grid are rounded up one step further.                                   *)
EXTENDS SchedSem, SequencesExt
CONSTANTS Tick,      \* ticks per nanosecond
          Tol        \* areas are known up to this
Abs(x) == IF x < 0 THEN -x ELSE x
CeilDiv(a, b) == (a + b - 1) \div b
CErr(e) == [err |-> e, st |-> <<>>, dur |-> 0, acc |-> <<>>, pulses |-> <<>>]

(* acc: what a node contributes on each port: <<[port, s (area), e (end of *)
(* its last baseband pulse, relative to the node's start), off, cnd]>>     *)
PortsOf(acc) == {acc[i].port : i \in DOMAIN acc}
AccAt(acc, p) == acc[CHOOSE i \in DOMAIN acc : acc[i].port = p]
Merge(a, b) ==
  LET both == PortsOf(a) \cup PortsOf(b)
      One(p) == IF p \notin PortsOf(a) THEN AccAt(b, p)
                ELSE IF p \notin PortsOf(b) THEN AccAt(a, p)
                ELSE LET x == AccAt(a, p) y == AccAt(b, p)
                     IN [port |-> p, s |-> x.s + y.s, e |-> Max2(x.e, y.e),
                         off |-> x.off \/ y.off, cnd |-> x.cnd \/ y.cnd, n |-> x.n + y.n]
  IN SetToSeq({One(p) : p \in both})
Shift(acc, t) == [i \in DOMAIN acc |-> [acc[i] EXCEPT !.e = @ + t]]
OpAcc(nd) ==
  FoldLeft(LAMBDA acc, e :
             IF e.f = "offset" THEN Merge(acc, <<[port |-> e.port, s |-> 0, e |-> 0, off |-> TRUE, cnd |-> FALSE, n |-> 0]>>)
             ELSE IF e.clk # "bb" THEN acc
             ELSE Merge(acc, <<[port |-> e.port, s |-> e.a, e |-> e.t + e.d, off |-> FALSE, cnd |-> FALSE, n |-> 1]>>),
           <<>>, nd.ev)

(* ---- the compensation pulses of one node ---- *)
\* grid steps needed so that the amplitude stays within the limit
Step1(nd, p) == p.max * (nd.grid \div Tick)     \* area of one step at full amplitude
Slack(a) == Tol * (1 + a.n)
OnEdge(nd, p, a) ==
  LET m == Step1(nd, p) r == Abs(a.s) % m
  IN r <= Slack(a) \/ m - r <= Slack(a)
Steps(nd, p, a, up) ==
  LET m == Step1(nd, p)
  IN IF OnEdge(nd, p, a) THEN ((Abs(a.s) + (m \div 2)) \div m) + (IF up THEN 1 ELSE 0)
     ELSE CeilDiv(Abs(a.s), m)
Resolved(nd, dev) ==
  IF nd.els = <<>> THEN [err |-> "", ports |-> nd.ports, grid |-> nd.grid]
  ELSE LET es == [i \in DOMAIN nd.els |-> dev[nd.els[i]]]
       IN [err |-> IF \E i, j \in DOMAIN es : es[i].grid # es[j].grid \/ es[i].rate # es[j].rate
                   THEN "parameters" ELSE "",
           ports |-> [i \in DOMAIN es |-> [port |-> es[i].port, max |-> es[i].max]],
           grid |-> es[1].grid]
CompInfo(nd0, i, b, dev, up) ==
  LET r == Resolved(nd0, dev)
      nd == [nd0 EXCEPT !.ports = r.ports, !.grid = r.grid]
      used == {j \in DOMAIN nd.ports : nd.ports[j].port \in PortsOf(b.acc)}
      A(j) == AccAt(b.acc, nd.ports[j].port)
  IN IF r.err # "" THEN CErr(r.err)
     ELSE IF \E j \in used : A(j).off THEN CErr("offset")
     ELSE IF \E j \in used : A(j).cnd THEN CErr("conditional")
     ELSE LET steps == [j \in used |-> Steps(nd, nd.ports[j], A(j), <<i, j>> \in up)]
              live == {j \in used : steps[j] > 0}
              ps == SetToSeq({[f |-> "square", port |-> nd.ports[j].port, clk |-> "bb", t |-> A(j).e,
                               d |-> steps[j] * nd.grid, a |-> -A(j).s] : j \in live})
          IN [err |-> "", st |-> <<>>, pulses |-> ps,
              dur |-> MaxOf({b.dur} \cup {ps[j].t + ps[j].d : j \in DOMAIN ps}),
              acc |-> Merge(b.acc, [j \in DOMAIN ps |-> [port |-> ps[j].port, s |-> ps[j].a, e |-> ps[j].t + ps[j].d,
                                                         off |-> FALSE, cnd |-> FALSE, n |-> 1]])]

(* ---- all nodes, children first ---- *)
SchedAcc(st, items, info) ==
  FoldLeft(LAMBDA acc, j : Merge(acc, Shift(info[items[j].n].acc, st[j])), <<>>, [j \in DOMAIN items |-> j])
CNode(nd, i, info, nodes, strat, dev, up) ==
  CASE nd.k = "op" -> [err |-> "", st |-> <<>>, dur |-> nd.dur, acc |-> OpAcc(nd), pulses |-> <<>>]
    [] nd.k = "loop" ->
         LET b == info[nd.body]
         IN [err |-> b.err, st |-> <<>>, dur |-> nd.reps * b.dur, pulses |-> <<>>,
             acc |-> [j \in DOMAIN b.acc |-> [b.acc[j] EXCEPT !.s = @ * nd.reps,
                                                              !.e = @ + (nd.reps - 1) * b.dur]]]
    [] nd.k = "cond" ->
         LET b == info[nd.body]
         IN [err |-> b.err, st |-> <<>>, dur |-> b.dur + nd.buf, pulses |-> <<>>,
             acc |-> [j \in DOMAIN b.acc |-> [b.acc[j] EXCEPT !.cnd = TRUE]]]
    [] nd.k = "comp" -> IF info[nd.body].err # "" THEN CErr("child") ELSE CompInfo(nd, i, info[nd.body], dev, up)
    [] nd.k = "sched" ->
         IF \E j \in DOMAIN nd.items : info[nd.items[j].n].err # "" THEN CErr("child")
         ELSE LET s == Solve(nd.items, strat, [j \in DOMAIN nd.items |-> info[nd.items[j].n].dur],
                             [j \in DOMAIN nd.items |-> 0], nd.reps)
              IN IF s.err # "" THEN CErr(s.err)
                 ELSE [err |-> "", st |-> s.st, dur |-> s.dur, pulses |-> <<>>, acc |-> SchedAcc(s.st, nd.items, info)]
RECURSIVE CResolveFrom(_, _, _, _, _)
CResolveFrom(nodes, strat, dev, up, info) ==
  IF Len(info) = Len(nodes) THEN info
  ELSE CResolveFrom(nodes, strat, dev, up,
         Append(info, CNode(nodes[Len(info) + 1], Len(info) + 1, info, nodes, strat, dev, up)))
CResolve(nodes, strat, dev, up) == CResolveFrom(nodes, strat, dev, up, <<>>)
\* the <<node, port number>> whose duration falls on the edge of the grid
Edges(nodes, info, dev) ==
  {<<i, j>> \in (DOMAIN nodes) \X (1..4) :
     /\ nodes[i].k = "comp"
     /\ LET r == Resolved(nodes[i], dev) nd == [nodes[i] EXCEPT !.ports = r.ports, !.grid = r.grid]
        IN /\ j \in DOMAIN nd.ports
           /\ nd.ports[j].port \in PortsOf(info[nd.body].acc)
           /\ OnEdge(nd, nd.ports[j], AccAt(info[nd.body].acc, nd.ports[j].port))}

(* ---- everything that is played ---- *)
RECURSIVE Play(_, _, _, _)
Play(nodes, info, i, t) ==
  LET nd == nodes[i]
  IN CASE nd.k = "op" -> [j \in DOMAIN nd.ev |-> [nd.ev[j] EXCEPT !.t = @ + t]]
       [] nd.k = "loop" -> FlattenSeq([r \in 1..nd.reps |-> Play(nodes, info, nd.body, t + (r - 1) * info[nd.body].dur)])
       [] nd.k = "cond" -> Play(nodes, info, nd.body, t)
       [] nd.k = "comp" -> Play(nodes, info, nd.body, t)
                           \o [j \in DOMAIN info[i].pulses |-> [info[i].pulses[j] EXCEPT !.t = @ + t]]
       [] nd.k = "sched" -> FlattenSeq([j \in DOMAIN nd.items |-> Play(nodes, info, nd.items[j].n, t + info[i].st[j])])

(* ---- what the property asks, on the specification itself ---- *)
\* compensated: nothing is left on a listed port; the pulse is last, on the grid and within its limit
Balanced(nodes, info, dev) ==
  \A i \in DOMAIN nodes : (nodes[i].k = "comp" /\ info[i].err = "") =>
    LET r == Resolved(nodes[i], dev)
    IN \A j \in DOMAIN r.ports : r.ports[j].port \in PortsOf(info[i].acc) =>
         LET all == AccAt(info[i].acc, r.ports[j].port)
         IN /\ Abs(all.s) <= Tol * all.n
            /\ \A p \in {q \in ToSet(info[i].pulses) : q.port = r.ports[j].port} :
                 /\ p.d % r.grid = 0 /\ p.t + p.d = all.e
                 /\ Abs(p.a) <= r.ports[j].max * (p.d \div Tick) + Tol * (1 + all.n)
=============================================================================
