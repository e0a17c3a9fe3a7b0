---------------------------- MODULE SchedSem ----------------------------
(* Meaning of a schedule: when everything happens.                        *)
(*                                                                        *)
(* A schedule is given as a sequence of nodes, children before parents:   *)
(*   [k |-> "op",    dur, nod, ...]            operation                   *)
(*   [k |-> "sched", items, reps, nod]         (sub)schedule               *)
(*   [k |-> "loop",  body, reps]               body repeated               *)
(*   [k |-> "cond",  body, buf, ...]           body played conditionally   *)
(* items: sequence of [n |-> node index, cons |-> sequence of              *)
(*   [ref |-> item index | 0 default | -1 not in the schedule,             *)
(*    rp, rpn \in {"", "start","center","end"}, rel |-> integer]].         *)
(* Times are integers (the exporter picks the unit; centres need even).   *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MaxSeq(_, _)
MaxSeq(s, m) == IF s = <<>> THEN m ELSE MaxSeq(Tail(s), Max2(m, Head(s)))
RECURSIVE MinSeq(_, _)
MinSeq(s, m) == IF s = <<>> THEN m ELSE MinSeq(Tail(s), Min2(m, Head(s)))
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x

Pt(p, d) == CASE p = "start" -> 0 [] p = "center" -> d \div 2 [] p = "end" -> d

(* ---- one constraint with its defaults filled in ---- *)
DefRef(j, n, strat)  == IF strat = "asap" THEN j - 1 ELSE IF j = n THEN 0 ELSE j + 1
RefPt(c, strat)      == IF c.rp # "" THEN c.rp ELSE IF strat = "asap" THEN "end" ELSE "start"
RefPtNew(c, strat)   == IF c.rpn # "" THEN c.rpn ELSE IF strat = "asap" THEN "start" ELSE "end"
\* only the first constraint of an item gets strategy dependent defaults
Explicit(c, i, j, n, strat) ==
  IF i = 1 THEN [ref |-> IF c.ref # 0 THEN c.ref ELSE DefRef(j, n, strat),
                 rp |-> RefPt(c, strat), rpn |-> RefPtNew(c, strat), rel |-> c.rel]
  ELSE [ref |-> c.ref, rp |-> RefPt(c, "asap"), rpn |-> RefPtNew(c, "asap"), rel |-> c.rel]
ExplicitItems(items, strat) ==
  [j \in DOMAIN items |->
     [i \in DOMAIN items[j].cons |-> Explicit(items[j].cons[i], i, j, Len(items), strat)]]

Refs(cons) == {cons[i].ref : i \in DOMAIN cons}
\* an item whose only constraint has no reference is the origin of its schedule
IsRoot(cons) == Len(cons) = 1 /\ cons[1].ref = 0

(* start time a constraint c asks of an item with duration d, given the   *)
(* start st and duration dr of the referenced item (delay: extra idle the *)
(* referenced operation asks for)                                         *)
Asked(c, st, dr, delay, d) == st + Pt(c.rp, dr) + c.rel + delay - Pt(c.rpn, d)

(* ---- solving all constraints of one schedule ---- *)
\* C: explicit constraints; D: durations; N: next-operation delays
RECURSIVE SolveFrom(_, _, _, _, _)
SolveFrom(C, D, N, known, st) ==
  LET ready == {j \in DOMAIN C : j \notin known /\
                  (IsRoot(C[j]) \/ Refs(C[j]) \subseteq known)}
  IN IF ready = {} THEN [known |-> known, st |-> st]
     ELSE SolveFrom(C, D, N, known \cup ready,
            [j \in DOMAIN st |->
               IF j \notin ready THEN st[j]
               ELSE IF IsRoot(C[j]) THEN 0
               ELSE LET asks == {Asked(C[j][i], st[C[j][i].ref], D[C[j][i].ref],
                                       N[C[j][i].ref], D[j]) : i \in DOMAIN C[j]}
                    IN MaxOf(asks)])

SolveErr(e) == [err |-> e, st |-> <<>>, dur |-> 0]
(* start time of each item, shifted so that the earliest is not negative   *)
Solve(items, strat, D, N, reps) ==
  LET n == Len(items)
      C == ExplicitItems(items, strat)
  IN IF n = 0 THEN SolveErr("empty")
     ELSE IF strat = "alap" /\ \E j \in DOMAIN items : Len(items[j].cons) # 1
          THEN SolveErr("alap-constraints")
     ELSE IF \E j \in DOMAIN C : -1 \in Refs(C[j]) THEN SolveErr("unknown-ref")
     ELSE IF \E j \in DOMAIN C : \E i \in DOMAIN C[j] : i > 1 /\ C[j][i].ref = 0
          THEN SolveErr("no-ref")
     ELSE LET r == SolveFrom(C, D, N, {}, [j \in 1..n |-> 0])
          IN IF r.known # 1..n THEN SolveErr("cycle")
             ELSE LET m  == MinOf({r.st[j] : j \in 1..n})
                      sh == IF m < 0 THEN -m ELSE 0
                      st == [j \in 1..n |-> r.st[j] + sh]
                  IN [err |-> "", st |-> st,
                      dur |-> reps * MaxOf({0} \cup {st[j] + D[j] : j \in 1..n})]

(* ---- all nodes, children first ---- *)
OpInfo(nd)    == [err |-> "", st |-> <<>>, dur |-> nd.dur]
NodeInfo(nd, info, nodes, strat) ==
  CASE nd.k = "op" -> OpInfo(nd)
    [] nd.k = "loop" -> [err |-> info[nd.body].err, st |-> <<>>, dur |-> nd.reps * info[nd.body].dur]
    [] nd.k = "cond" -> [err |-> info[nd.body].err, st |-> <<>>, dur |-> info[nd.body].dur + nd.buf]
    [] nd.k = "sched" ->
         LET bad == {j \in DOMAIN nd.items : info[nd.items[j].n].err # ""}
         IN IF bad # {} THEN SolveErr("child")
            ELSE Solve(nd.items, strat,
                       [j \in DOMAIN nd.items |-> info[nd.items[j].n].dur],
                       [j \in DOMAIN nd.items |->
                          IF nodes[nd.items[j].n].k \in {"op", "sched"} THEN nodes[nd.items[j].n].nod ELSE 0],
                       nd.reps)
RECURSIVE ResolveFrom(_, _, _)
ResolveFrom(nodes, strat, info) ==
  IF Len(info) = Len(nodes) THEN info
  ELSE ResolveFrom(nodes, strat,
         Append(info, NodeInfo(nodes[Len(info) + 1], info, nodes, strat)))
Resolve(nodes, strat) == ResolveFrom(nodes, strat, <<>>)

(* ---- the flat timeline: every operation occurrence with its start ---- *)
(* A loop contributes its body once per iteration, a conditional its body *)
(* tagged with the conditions it is under.                                *)
RECURSIVE Flat(_, _, _, _, _, _)
RECURSIVE FlatItems(_, _, _, _, _, _, _)
RECURSIVE FlatLoop(_, _, _, _, _, _, _, _)
\* c: the conditionals around, as [n |-> node, t |-> its start]
\* p: where in the schedule text the operation stands (one per item, whatever the iteration)
\* l: the iterations of the loops around it
\* g: start and end of the outermost loop or conditional around it (<<>>: none)
\* returns <<[n, t, c, p, l, g], ...>>
Flat(nodes, info, i, t, c, pl) ==
  LET nd == nodes[i]
      inside == IF pl.g = <<>> THEN [pl EXCEPT !.g = <<t, t + info[i].dur>>] ELSE pl
  IN
  CASE nd.k = "op"   -> << [n |-> i, t |-> t, c |-> c, p |-> pl.p, l |-> pl.l, g |-> pl.g] >>
    [] nd.k = "loop" -> FlatLoop(nodes, info, nd, t, c, inside, info[nd.body].dur, 0)
    [] nd.k = "cond" -> Flat(nodes, info, nd.body, t, Append(c, [n |-> i, t |-> t]), inside)
    [] nd.k = "sched" -> FlatItems(nodes, info, i, t, c, pl, 1)
FlatLoop(nodes, info, nd, t, c, pl, d, r) ==
  IF r = nd.reps THEN <<>>
  ELSE Flat(nodes, info, nd.body, t + r * d, c, [pl EXCEPT !.l = Append(pl.l, r)])
       \o FlatLoop(nodes, info, nd, t, c, pl, d, r + 1)
FlatItems(nodes, info, i, t, c, pl, j) ==
  IF j > Len(nodes[i].items) THEN <<>>
  ELSE Flat(nodes, info, nodes[i].items[j].n, t + info[i].st[j], c, [pl EXCEPT !.p = Append(pl.p, j)])
       \o FlatItems(nodes, info, i, t, c, pl, j + 1)
Timeline(nodes, info) == Flat(nodes, info, Len(nodes), 0, <<>>, [p |-> <<>>, l |-> <<>>, g |-> <<>>])
\* end of one repetition of the top level schedule
RepDuration(nodes, info) ==
  LET nd == nodes[Len(nodes)] IN info[Len(nodes)].dur \div nd.reps
=============================================================================
