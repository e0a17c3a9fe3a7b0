--------------------------- MODULE Crosstalk ---------------------------
(* Crosstalk compensation, stated by what the device receives: line s      *)
(* leaks onto line e with coefficient C[s][e], so the pulses sent out (obs) *)
(* have to be such that what arrives is what the schedule asks for:        *)
(*    sum over d of sent[d] * C[d][e] = asked[e]     for every line e,     *)
(* at every start, for every duration and every sample of the waveform.    *)
(* case: nodes, strat, mat (rows of <<re, im>> in 1e-3; lines 1..n; other   *)
(*   lines have numbers above n), obs: [res, ev]                           *)
(* events: [l (line), t, d, s |-> sequence of <<re, im>> in 1e-4]          *)
EXTENDS SchedSem, SequencesExt, Judge
VARIABLES c, ph
V(cl, d) == [cl |-> cl, d |-> ToString(d)]
Abs(x) == IF x < 0 THEN -x ELSE x
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Mul(x, y) == <<(x[1] * y[1]) - (x[2] * y[2]), (x[1] * y[2]) + (x[2] * y[1])>>
SumC(s) == FoldLeft(Add, <<0, 0>>, s)

Wanted(cs) ==
  LET info == Resolve(cs.nodes, cs.strat)
      line == Timeline(cs.nodes, info)
  IN FlattenSeq([i \in DOMAIN line |->
       LET e == cs.nodes[line[i].n].ev IN [j \in DOMAIN e |-> [e[j] EXCEPT !.t = @ + line[i].t]]])
Keys(evs) == {<<evs[i].t, evs[i].d>> : i \in DOMAIN evs}
\* what is sent on line l, sample k, by the pulses that start and last as key says
On(evs, key, l, k) ==
  SumC([i \in DOMAIN SelectSeq(evs, LAMBDA e : e.t = key[1] /\ e.d = key[2] /\ e.l = l) |->
          SelectSeq(evs, LAMBDA e : e.t = key[1] /\ e.d = key[2] /\ e.l = l)[i].s[k]])
Near(x, y, tol) == Abs(x[1] - y[1]) <= tol /\ Abs(x[2] - y[2]) <= tol

Verdicts(k) ==
  LET cs == Cases[k]
      n == Len(cs.mat)
      info == Resolve(cs.nodes, cs.strat)
      want == Wanted(cs)
      got == cs.obs.ev
      lines == {want[i].l : i \in DOMAIN want} \cup {got[i].l : i \in DOMAIN got} \cup 1..n
      bad == {key \in Keys(want) \cup Keys(got) :
                LET w == SelectSeq(want, LAMBDA e : <<e.t, e.d>> = key)
                    g == SelectSeq(got, LAMBDA e : <<e.t, e.d>> = key)
                    m == Len(IF w # <<>> THEN w[1].s ELSE g[1].s)
                IN \E j \in 1..m :
                     LET Q == [l \in lines |-> On(g, key, l, j)]
                         A == [l \in lines |-> On(w, key, l, j)]
                     IN \/ \E e \in 1..n :
                             LET rec == SumC([d \in 1..n |-> Mul(Q[d], cs.mat[d][e])])
                             IN ~Near(rec, <<1000 * A[e][1], 1000 * A[e][2]>>, 1000 * cs.tol)
                        \/ \E l \in lines \ (1..n) : ~Near(Q[l], A[l], cs.tol)}
  IN IF cs.obs.res # "ok" THEN {V("rejected-valid", "")}
     ELSE (IF bad = {} THEN {V("ok", "")} ELSE {V("received", <<bad>>)})
          \cup (IF cs.obs.dur # info[Len(cs.nodes)].dur THEN {V("duration", <<cs.obs.dur, info[Len(cs.nodes)].dur>>)} ELSE {})
Init == c \in 1..Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED c /\ \A v \in Verdicts(c) : Verdict(c, v.cl, v.d)
Spec2 == Init /\ [][Next]_<<c, ph>>
=============================================================================
