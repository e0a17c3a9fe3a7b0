------------------------------ MODULE Q1Trace ------------------------------
(* Runs the programs the compiler produced for a Qblox cluster on the Q1   *)
(* machine and judges them against the meaning of the schedule they were    *)
(* compiled from. One behaviour per case, sequencer and measurement         *)
(* outcomes.                                                                *)
(* case: [nodes, reps, expect, obs, msg, pcs, seqs, tabs, tol, labels]      *)
EXTENDS SchedSem, Q1, Judge

\* fixed by the start-up convention of every program: sync, parameter update,
\* latency wait, and the header of a repetition (phase reset, update)
SYNC == 12
HEAD == 4
TRIGDELAY == 364

VARIABLES k, q, O, env, m
vars == <<k, q, O, env, m>>
View == <<k, q, O, m.n, m.err, m.done, m.pc, m.t>>

Case == Cases[k]
Info(c) == Resolve(c.nodes, "asap")

(* ---- what the schedule means for one sequencer ---- *)
\* flat events of a case: [t, c, v] for every event of every operation
RECURSIVE EvSeq(_, _, _)
EvSeq(tl, nodes, i) ==
  IF i > Len(tl) THEN <<>>
  ELSE [j \in DOMAIN nodes[tl[i].n].ev |->
          [t |-> tl[i].t + nodes[tl[i].n].ev[j].t0, c |-> tl[i].c, v |-> nodes[tl[i].n].ev[j], n |-> tl[i].n,
           p |-> <<tl[i].p, j>>, l |-> tl[i].l, g |-> tl[i].g]]
       \o EvSeq(tl, nodes, i + 1)
Events(c) == EvSeq(Timeline(c.nodes, Info(c)), c.nodes, 1)
RepTime(c) == RepDuration(c.nodes, Info(c))

IsPulse(e) == e.v.e \in {"p", "w"}
OnPc(e, pc) == e.v.e \in {"p", "w", "o", "a", "m", "ts"} /\ e.v.pc = pc
UsedPcs(c) == LET E == Events(c) IN
  {E[i].v.pc : i \in {j \in DOMAIN E : E[j].v.e \in {"p", "w", "o", "a", "m", "ts"}}}

(* ---- measurement outcomes ---- *)
\* labelled acquisitions of one repetition, in order of time: [t, d, label]
Labelled(E) == SortSeq(SelectSeq(E, LAMBDA e : e.v.e = "a" /\ e.v.label # 0),
                       LAMBDA a, b : a.t < b.t)
NOut(c) == LET L == Labelled(Events(c)) IN Len(L) * c.reps
\* outcome number of labelled acquisition i of repetition r
OutIx(L, i, r) == r * Len(L) + i
\* the acquisition that decides a conditional with this label starting at t
Decider(L, label, t) ==
  LET S == {i \in DOMAIN L : L[i].v.label = label /\ L[i].t < t}
  IN IF S = {} THEN 0 ELSE MaxOf(S)
Active(e, L, r, out, nodes) ==
  \A i \in DOMAIN e.c :
     LET d == Decider(L, nodes[e.c[i].n].label, e.c[i].t)
     IN d # 0 /\ (out[OutIx(L, d, r)] = 1) # (L[d].v.cnd = 1)
\* the address the sequencer that measures a label writes its triggers to (0: none)
AddrOf(c, l) ==
  LET S == {i \in DOMAIN c.seqs : c.seqs[i].pc = c.labels[l].pc}
  IN IF S = {} THEN 0 ELSE c.seqs[CHOOSE i \in S : TRUE].waddr
\* triggers: one for a state above threshold, or one per count (thrn > 0: thrn - 1 or thrn counts)
Triggers(v, x) == IF v.thrn = 0 THEN x ELSE v.thrn - 1 + x
Trigs(c, out) ==
  LET E == Events(c) L == Labelled(E) T == RepTime(c)
      one(r, i) == [j \in 1..Triggers(L[i].v, out[OutIx(L, i, r)]) |->
         [t |-> SYNC + HEAD + r * (T + HEAD) + L[i].t + L[i].v.d + TRIGDELAY + c.pcs[L[i].v.pc].lat,
          addr |-> AddrOf(c, L[i].v.label)]]
      RECURSIVE all(_, _)
      all(r, i) == IF r = c.reps THEN <<>> ELSE IF i > Len(L) THEN all(r + 1, 1) ELSE one(r, i) \o all(r, i + 1)
  IN all(0, 1)

EnvOf(c, s, out) ==
  [wf |-> s.wf, wt |-> s.wt, acqs |-> s.acqs, thr |-> s.thr,
   fuel |-> IF s.dup # "" THEN 0 ELSE c.fuel,                          \* what is declared twice is not run
   tmax |-> SYNC + c.pcs[s.pc].lat + c.reps * (RepTime(c) + HEAD) + 20000,
   trig |-> IF c.labels = <<>> THEN <<>> ELSE Trigs(c, out)]

(* ---- expected signals ---- *)
Pv(e, tabs, x, path) ==
  LET i == x - e.t IN
  IF i < 0 \/ i >= e.v.d THEN 0
  ELSE IF e.v.e = "p" THEN (IF path = 0 THEN e.v.I ELSE e.v.Q)
  ELSE LET tb == tabs[IF path = 0 THEN e.v.I ELSE e.v.Q]
       IN IF i + 1 <= Len(tb) THEN tb[i + 1] ELSE 0
RECURSIVE SumPv(_, _, _, _, _)
SumPv(P, i, tabs, x, path) ==
  IF i > Len(P) THEN 0 ELSE Pv(P[i], tabs, x, path) + SumPv(P, i + 1, tabs, x, path)

\* last element of E (by time, then order) with time <= x; 0 when none
LastAt(E, x) ==
  LET S == {i \in DOMAIN E : E[i].t <= x}
  IN IF S = {} THEN 0
     ELSE LET mt == MaxOf({E[i].t : i \in S}) IN MaxOf({i \in S : E[i].t = mt})
Before(E, i, j) == E[i].t < E[j].t \/ (E[i].t = E[j].t /\ i < j)

OffAt(F, x, r, path) ==
  LET i == LastAt(F, x)
      j == IF i # 0 THEN i ELSE IF r > 0 THEN LastAt(F, 1000000000) ELSE 0
  IN IF j = 0 THEN 0 ELSE IF path = 0 THEN F[j].v.I ELSE F[j].v.Q
\* phase since the last reset, and the time of that reset
ResetAt(K, x) ==
  LET S == {i \in DOMAIN K : K[i].v.e = "rst" /\ K[i].t <= x}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i = j \/ Before(K, j, i)
RECURSIVE SumPh(_, _, _, _)
SumPh(K, i, x, last) ==
  IF i > Len(K) THEN 0
  ELSE ((IF K[i].v.e = "phs" /\ K[i].t <= x /\ (last = 0 \/ Before(K, last, i)) THEN K[i].v.a ELSE 0)
        + SumPh(K, i + 1, x, last)) % PHASES
FreqAt(K, f0, x, r) ==
  LET F == SelectSeq(K, LAMBDA e : e.v.e = "frq")
      i == LastAt(F, x)
      j == IF i # 0 THEN i ELSE IF r > 0 THEN LastAt(F, 1000000000) ELSE 0
  IN IF j = 0 THEN f0 ELSE f0 + F[j].v.df

Abs(x) == IF x < 0 THEN -x ELSE x
\* |a - b| modulo a full turn, within tol
NearPh(a, b, tol) == LET d == (a - b) % PHASES IN d <= tol \/ d >= PHASES - tol
Near(a, b, tol) == Abs(a - b) <= tol

(* ---- verdicts for one finished run ---- *)
\* clauses broken by the signals
SignalClauses(c, s, mm, ev, E, out) ==
  LET pc == s.pc
      lat == c.pcs[pc].lat
      T == RepTime(c)
      L == Labelled(E)
      P0 == SelectSeq(E, LAMBDA e : IsPulse(e) /\ e.v.pc = pc)
      F0 == SelectSeq(E, LAMBDA e : e.v.e = "o" /\ e.v.pc = pc)
      K0 == SelectSeq(E, LAMBDA e : e.v.e \in {"phs", "rst", "frq"} /\ e.v.ck = c.pcs[pc].ck)
      played(S) == [r \in 0..(c.reps - 1) |-> IF L = <<>> THEN S ELSE SelectSeq(S, LAMBDA e : Active(e, L, r, out, c.nodes))]
      start(r) == SYNC + lat + r * (T + HEAD) + HEAD
      reps == {0, 1, c.reps - 1} \cap (0..(c.reps - 1))
      Pr == played(P0)
      Fr == played(F0)
      Kr == played(K0)
      marks == UNION {{P0[i].t, P0[i].t + 1, P0[i].t + 2, P0[i].t + 3, P0[i].t - 1, P0[i].t + P0[i].v.d, P0[i].t + P0[i].v.d - 1,
                       P0[i].t + P0[i].v.d \div 2, P0[i].t + P0[i].v.d \div 4,
                       P0[i].t + (3 * P0[i].v.d) \div 4} : i \in DOMAIN P0}
               \cup {F0[i].t : i \in DOMAIN F0} \cup {F0[i].t - 1 : i \in DOMAIN F0}
               \cup {K0[i].t : i \in DOMAIN K0} \cup {T - 1, T}
      hx == UNION {{mm.h[i].t - 1, mm.h[i].t, mm.h[i].t + 1} : i \in DOMAIN mm.h}
      X == {x \in (hx \cup UNION {{start(r) + b : b \in marks} : r \in reps}) :
              x >= start(0) - HEAD /\ x < start(c.reps - 1) + T}
      repOf(x) == (x - (start(0) - HEAD)) \div (T + HEAD)
      loc(x) == x - start(repOf(x))
      want(x, path) == SumPv(Pr[repOf(x)], 1, c.tabs, loc(x), path) + OffAt(Fr[repOf(x)], loc(x), repOf(x), path)
      got(x) == mm.h[At(mm.h, x)]
      sigbad == {x \in X : \/ ~Near(want(x, 0), Out0(got(x), x, ev), c.tol)
                           \/ ~Near(want(x, 1), Out1(got(x), x, ev), c.tol)}
      live == {x \in X : want(x, 0) # 0 \/ want(x, 1) # 0}
      nco == IF c.pcs[pc].nco THEN live ELSE {}
      phbad == {x \in nco : ~NearPh(got(x).ph, SumPh(Kr[repOf(x)], 1, loc(x), ResetAt(Kr[repOf(x)], loc(x))), c.phtol)}
      rsbad == {x \in nco : got(x).rs # IF ResetAt(Kr[repOf(x)], loc(x)) = 0 THEN start(repOf(x)) - HEAD
                                        ELSE start(repOf(x)) + Kr[repOf(x)][ResetAt(Kr[repOf(x)], loc(x))].t}
      frbad == {x \in nco : ~Near(got(x).fr, FreqAt(Kr[repOf(x)], c.pcs[pc].fr, loc(x), repOf(x)), 2)}
      D(x) == <<"t", loc(x), "rep", repOf(x), "want", want(x, 0), want(x, 1), "got", Out0(got(x), x, ev), Out1(got(x), x, ev)>>
      Dp(x) == <<"t", loc(x), "rep", repOf(x), "phase", SumPh(Kr[repOf(x)], 1, loc(x), ResetAt(Kr[repOf(x)], loc(x))), "got", got(x).ph, got(x).rs,
                 "freq", FreqAt(Kr[repOf(x)], c.pcs[pc].fr, loc(x), repOf(x)), got(x).fr>>
  IN (IF sigbad # {} THEN {<<"signal", D(MinOf(sigbad))>>} ELSE {})
     \cup (IF phbad # {} THEN {<<"phase", Dp(MinOf(phbad))>>} ELSE {})
     \cup (IF rsbad # {} THEN {<<"phase-reset", Dp(MinOf(rsbad))>>} ELSE {})
     \cup (IF frbad # {} THEN {<<"frequency", Dp(MinOf(frbad))>>} ELSE {})

(* ---- numbering of acquisitions within their channel ---- *)
AcqsOf(E, ch) == SortSeq(SelectSeq(E, LAMBDA e : e.v.e = "a" /\ e.v.ch = ch), LAMBDA a, b : a.t < b.t)
Whole(v) == v.pn = "Trace" \/ v.md = "distribution"
\* places of the text that acquire into a channel, those with a requested index first, else in order of time
Places(A) ==
  LET first == SelectSeq([i \in DOMAIN A |-> i], LAMBDA i : \A j \in 1..(i - 1) : A[j].p # A[i].p)
      ask == SelectSeq(first, LAMBDA i : A[i].v.ai >= 0)
      none == SelectSeq(first, LAMBDA i : A[i].v.ai < 0)
  IN ask \o none
\* number of indices a place takes: one, or one per iteration of the loops around it
Size(A, i) == IF A[i].v.app THEN Cardinality({j \in DOMAIN A : A[j].p = A[i].p}) ELSE 1
RECURSIVE SizeUpTo(_, _, _)
SizeUpTo(A, P, n) == IF n = 0 THEN 0 ELSE Size(A, P[n]) + SizeUpTo(A, P, n - 1)
\* index of occurrence i of channel A
IndexOf(A, P, i) ==
  LET n == CHOOSE x \in DOMAIN P : A[P[x]].p = A[i].p
  IN SizeUpTo(A, P, n - 1) + (IF A[i].v.app THEN Cardinality({j \in 1..(i - 1) : A[j].p = A[i].p}) ELSE 0)
\* the table of a channel: coordinates by index
TableOf(A) ==
  LET P == Places(A)
      row(i) == LET same == {j \in DOMAIN A : A[j].p = A[i].p}
                IN [legacy |-> IF A[i].v.app THEN A[i].v.ai ELSE -1,
                    rep |-> IF A[i].v.app /\ A[i].l # <<>> THEN Cardinality({j \in same : j < i}) ELSE -1,
                    user |-> A[i].v.uc, more |-> 0]
  IN IF Whole(A[1].v) THEN << [legacy |-> -1, rep |-> -1, user |-> A[1].v.uc, more |-> 0] >>
     ELSE [x \in 1..SizeUpTo(A, P, Len(P)) |->
             row(CHOOSE i \in DOMAIN A : IndexOf(A, P, i) = x - 1 /\
                   (A[i].v.app \/ \A j \in 1..(i - 1) : A[j].p # A[i].p))]
Channels(E) == {E[i].v.ch : i \in {j \in DOMAIN E : E[j].v.e = "a"}}
ChannelClauses(c) ==
  LET E == Events(c) H == Channels(E)
      bad == {ch \in H :
                LET A == AcqsOf(E, ch)
                    S == {i \in DOMAIN c.chans : c.chans[i].ch = ch}
                IN Cardinality(S) # 1 \/
                   LET d == c.chans[CHOOSE i \in S : TRUE]
                   IN d.proto # A[1].v.pn \/ d.md # A[1].v.md \/ ~d.dim \/ d.coords # TableOf(A)}
  IN IF {c.chans[i].ch : i \in DOMAIN c.chans} # H THEN << <<"channels", <<"want", H, "got", c.chans>> >> >>
     ELSE IF bad # {} THEN << <<"channel-table", <<MinOf(bad), "want", TableOf(AcqsOf(E, MinOf(bad))), "got", c.chans>> >> >>
     ELSE <<>>

\* clauses broken by the account of where each result is stored: W the acquisitions
\* that happened with G the bins they went to
MapClauses(c, s, E, W, G) ==
  LET H == {E[i].v.ch : i \in {j \in DOMAIN E : E[j].v.e = "a" /\ E[j].v.pc = s.pc}}
      A == [ch \in H |-> AcqsOf(E, ch)]
      P == [ch \in H |-> Places(A[ch])]
      want == UNION {IF Whole(A[ch][1].v) THEN {<<ch, -1>>}
                     ELSE {<<ch, IndexOf(A[ch], P[ch], i)>> : i \in {j \in DOMAIN A[ch] : A[ch][j].v.pc = s.pc}} : ch \in H}
      got == {<<s.map[i].ch, s.map[i].ix>> : i \in DOMAIN s.map}
      entry(ch, ix) == s.map[CHOOSE i \in DOMAIN s.map : s.map[i].ch = ch /\ s.map[i].ix = ix]
      ix(w) == IF Whole(w.a) THEN -1
               ELSE IndexOf(A[w.a.ch], P[w.a.ch], CHOOSE i \in DOMAIN A[w.a.ch] : A[w.a.ch][i].p = w.p /\ A[w.a.ch][i].l = w.it)
      place(w) == LET e == entry(w.a.ch, ix(w))
                  IN IF Whole(w.a) THEN <<e.index, 0>>
                     ELSE <<e.index, e.bin + (IF w.a.app THEN w.r * e.stride ELSE 0)>>
      off == {i \in DOMAIN W : place(W[i]) # <<G[i].ix, G[i].bin>>}
  IN IF got # want \/ Cardinality(got) # Len(s.map) THEN {<<"map-domain", <<"want", want, "got", s.map>> >>}
     ELSE IF off # {} THEN {<<"map-place", <<"channel", W[MinOf(off)].a.ch, "repetition", W[MinOf(off)].r, "index", ix(W[MinOf(off)]),
                               "says", place(W[MinOf(off)]), "stored", G[MinOf(off)].ix, G[MinOf(off)].bin>> >>}
     ELSE {}

(* ---- retrieved data ---- *)
\* what the emulated sequencers store in a bin: recognisable numbers, SCALE-fold in the data
SCALE == 1000
NAN == -2000000000
Code(h, ix, b) == (h * 32 + ix) * 512 + b
RawVal(c, h, ix, b) == IF c.raw = "code" THEN Code(h, ix, b)
                       ELSE IF c.raw = "small" THEN (7 * h + 3 * ix + 5 * b + 1) % 11
                       ELSE IF b >= 5 + ix + (h % 3) THEN -1
                       ELSE 3 * ((5 + ix + (h % 3) - b + 1) \div 2)
Scope(h, ix, i, p) == (h * 32 + ix) * 64 + ((i * (p + 1)) % 61)
ChanRec(c, ch) == c.data[CHOOSE i \in DOMAIN c.data : c.data[i].ch = ch]
Upto(n) == [i \in 1..n |-> i - 1]
\* counts and their numbers from the reversed cumulative distribution of a sequencer
RECURSIVE Dist(_, _, _, _, _)
Dist(c, h, ix, b, last) ==
  IF b < 0 THEN <<>>
  ELSE LET x == RawVal(c, h, ix, b) IN
    IF x < 0 \/ x = last THEN Dist(c, h, ix, b - 1, last)
    ELSE Append(Dist(c, h, ix, b - 1, x), [n |-> b + 1, v |-> x - last])
\* dimensions, coordinates and shape of the arrays of all channels
DataShape(c) ==
  LET E == Events(c) H == Channels(E)
      bad(ch) ==
        LET A == AcqsOf(E, ch) d == ChanRec(c, ch) v == A[1].v
            n == IF Whole(v) THEN 1 ELSE Len(TableOf(A))
            dist == v.md = "distribution"
            table == [i \in DOMAIN TableOf(A) |-> TableOf(A)[i]]
        IN IF d.proto # v.pn THEN "protocol"
           ELSE IF d.dims # (IF v.proto = "trace" THEN <<"i", "t">> ELSE IF v.app THEN <<"r", "i">> ELSE <<"i">>) THEN "dimensions"
           ELSE IF d.reps # (IF v.app /\ v.proto # "trace" THEN Upto(c.reps) ELSE <<>>) THEN "repetitions"
           ELSE IF dist THEN ""
           ELSE IF {d.ix[i] : i \in DOMAIN d.ix} # 0..(n - 1) \/ Len(d.ix) # n THEN "indices"
           ELSE IF v.proto = "trace" /\ d.tix # Upto(v.d) THEN "trace-length"
           ELSE IF \E i \in 1..n : d.coords[i] # table[d.ix[i] + 1] THEN "coordinates"
           ELSE IF Len(d.re) # (IF v.app /\ v.proto # "trace" THEN c.reps ELSE 1) \/ \E r \in DOMAIN d.re : Len(d.re[r]) # n THEN "shape"
           ELSE ""
      off == {ch \in H : bad(ch) # ""}
  IN IF {c.data[i].ch : i \in DOMAIN c.data} # H \/ Len(c.data) # Cardinality(H)
     THEN << <<"data-channels", <<"want", H, "got", [i \in DOMAIN c.data |-> c.data[i].ch]>> >> >>
     ELSE IF off # {} THEN << <<"data-" \o bad(MinOf(off)), <<"channel", MinOf(off), ChanRec(c, MinOf(off))>> >> >>
     ELSE <<>>
\* the instrument got every program, and ran exactly the sequencers that have one
UploadClauses(c) ==
  IF c.failed # "" THEN << <<"run-failed", c.failed>> >> ELSE LET S == {<<c.seqs[i].hid, c.seqs[i].dig>> : i \in DOMAIN c.seqs}
      U == {<<c.up[i].hid, c.up[i].dig>> : i \in DOMAIN c.up}
      R == {c.seqs[i].hid : i \in DOMAIN c.seqs}
      Y == {c.seqs[i].hid : i \in {j \in DOMAIN c.seqs : c.seqs[j].sync}}
  IN IF ~(S \subseteq U) THEN << <<"upload", <<"sequencers", {x[1] : x \in S \ U}>> >> >>
     ELSE IF {c.ran[i] : i \in DOMAIN c.ran} # R THEN << <<"started", <<"want", R, "got", c.ran>> >> >>
     ELSE IF {c.synced[i] : i \in DOMAIN c.synced} # Y THEN << <<"sync-enabled", <<"want", Y, "got", c.synced>> >> >>
     ELSE LET off == {i \in DOMAIN c.settings : c.settings[i].want # c.settings[i].got}
          IN IF off # {} THEN << <<"setting", c.settings[MinOf(off)]>> >> ELSE <<>>
\* every value is the one stored in the bin of that acquisition, as its protocol says
DataClauses(c, s, E, W, G) ==
  LET H == {E[i].v.ch : i \in {j \in DOMAIN E : E[j].v.e = "a" /\ E[j].v.pc = s.pc}}
      A == [ch \in H |-> AcqsOf(E, ch)]
      P == [ch \in H |-> Places(A[ch])]
      ix(w) == IndexOf(A[w.a.ch], P[w.a.ch], CHOOSE i \in DOMAIN A[w.a.ch] : A[w.a.ch][i].p = w.p /\ A[w.a.ch][i].l = w.it)
      row(w) == IF w.a.app THEN w.r + 1 ELSE 1
      bad(w, g) ==
        LET d == ChanRec(c, w.a.ch)
            x == RawVal(c, s.hid, g.ix, g.bin)
            nan == x < 0
            col == CHOOSE i \in DOMAIN d.ix : d.ix[i] = ix(w)
            re == d.re[row(w)][col][1]
            im == d.im[row(w)][col][1]
            y == 2 * x + 1
        IN IF w.a.proto = "trace" THEN
             Len(d.re[1][1]) # w.a.d \/
             \E i \in 1..w.a.d : d.re[1][1][i] # SCALE * Scope(s.hid, g.ix, i - 1, 0) \/ d.im[1][1][i] # SCALE * Scope(s.hid, g.ix, i - 1, 1)
           ELSE IF w.a.md = "distribution" THEN
             c.raw = "cum" /\
             LET D == Dist(c, s.hid, g.ix, 40, 0)
             IN d.counts # [i \in DOMAIN D |-> D[i].n] \/ d.ix # Upto(Len(D))
                \/ Len(d.re[1]) # Len(D) \/ \E i \in DOMAIN D : d.re[1][i][1] # SCALE * D[i].v
           ELSE IF w.a.pn \in {"ThresholdedAcquisition", "WeightedThresholdedAcquisition"} THEN
             re # (IF nan THEN -SCALE ELSE SCALE * x) \/ im # 0
           ELSE IF w.a.pn = "ThresholdedTriggerCount" THEN
             re # SCALE * (IF nan THEN -1 ELSE IF (x >= w.a.thrn) # (w.a.cnd = 1) THEN 1 ELSE 0)
           ELSE IF nan THEN FALSE
           ELSE IF w.a.pn = "TriggerCount" THEN re # SCALE * x
           ELSE IF w.a.pn = "SSBIntegrationComplex" THEN
             Abs(re * w.a.d - SCALE * x) > w.a.d \/ Abs(im * w.a.d - SCALE * y) > w.a.d
           ELSE IF w.a.pn = "NumericalWeightedIntegration" THEN re # SCALE * (x + y) \/ im # 0
           ELSE re # SCALE * x \/ im # SCALE * y
      off == {i \in DOMAIN W : bad(W[i], G[i])}
      o == MinOf(off)
  IN IF off = {} THEN {}
     ELSE {<<"data", <<"channel", W[o].a.ch, W[o].a.pn, "repetition", W[o].r, "stored at", G[o].ix, G[o].bin, "value",
                       RawVal(c, s.hid, G[o].ix, G[o].bin), "row", row(W[o]),
                       IF Whole(W[o].a) THEN 0 ELSE <<ix(W[o]), ChanRec(c, W[o].a.ch).ix, ChanRec(c, W[o].a.ch).re[row(W[o])]>> >> >>}

(* ---- time-tag modules ---- *)
\* fine delays: picoseconds as steps of 1/128 ns
Fine(ps) == (ps * 16 + 62) \div 125
FINEMAX == 2047
FINEGAP == 7000
\* what a port-clock does with fine delays, in order of time; pulses and windows separately
FineEvents(E, pc, e) == SortSeq(SelectSeq(E, LAMBDA x : x.v.e = e /\ x.v.pc = pc), LAMBDA a, b : a.t < b.t)
FineFits(F) ==
  \A i \in DOMAIN F :
     LET v == F[i].v len == v.d * 1000 + v.fe - v.fs
     IN /\ In(Fine(v.fs), 0, FINEMAX) /\ In(Fine(v.fe), 0, FINEMAX)
        /\ (v.fe - v.fs) % 1000 = 0 \/ len >= FINEGAP
        /\ i > 1 => LET u == F[i - 1] IN
             \/ (u.v.fe - v.fs) % 1000 = 0
             \/ (F[i].t - u.t - u.v.d) * 1000 + v.fs - u.v.fe >= FINEGAP
Tags(E, pc) == {E[i].v : i \in {j \in DOMAIN E : E[j].v.e = "a" /\ E[j].v.pc = pc}}
\* how the module is set up for the acquisitions of a port-clock
TagSettings(A) ==
  LET stamps == {v \in A : v.pn \in {"Timetag", "TimetagTrace"}}
      only(S) == IF S = {} THEN "" ELSE CHOOSE x \in S : TRUE
  IN [src |-> only({v.src : v \in stamps}), ref |-> only({v.ref : v \in stamps}), refch |-> IF stamps = {} THEN -1 ELSE MinOf({v.refch : v \in stamps}),
      scope |-> IF \E v \in A : v.pn = "Trace" THEN "scope" ELSE IF \E v \in A : v.pn = "TimetagTrace" THEN "timetag" ELSE "",
      trdur |-> IF \E v \in A : v.pn = "Trace" THEN (CHOOSE v \in A : v.pn = "Trace").d ELSE -1,
      slots |-> IF \E v \in A : v.label # 0 THEN <<(CHOOSE v \in A : v.label # 0).slot>> ELSE <<>>]
COUNTS == {"TriggerCount", "ThresholdedTriggerCount", "DualThresholdedTriggerCount"}
TagsAgree(A) ==
  LET stamps == {v \in A : v.pn \in {"Timetag", "TimetagTrace"}} IN
  /\ Cardinality({<<v.src, v.ref, v.refch>> : v \in stamps}) <= 1
  /\ ~(\E v, w \in A : v.pn = "Trace" /\ w.pn = "TimetagTrace")
  /\ Cardinality({v.ch : v \in {w \in A : w.pn \in {"Trace", "TimetagTrace"}}}) <= 1
  /\ Cardinality({<<v.pn, v.tl, v.th, v.slot>> : v \in {w \in A : w.pn \in COUNTS}}) <= 1
TagsFit(c) ==
  LET E == Events(c) IN
  \A pc \in {p \in UsedPcs(c) : c.pcs[p].dig} :
     FineFits(FineEvents(E, pc, "m")) /\ FineFits(FineEvents(E, pc, "a")) /\ TagsAgree(Tags(E, pc))
Expect(c) == IF c.expect = "tags" THEN (IF TagsFit(c) THEN "ok" ELSE "reject") ELSE c.expect

\* clauses broken by the digital output, time references and settings of a time-tag sequencer
DigClauses(c, s, mm, E) ==
  LET pc == s.pc
      lat == c.pcs[pc].lat
      T == RepTime(c)
      start(r) == SYNC + lat + r * (T + HEAD) + HEAD
      M == SelectSeq(E, LAMBDA e : e.v.e = "m" /\ e.v.pc = pc)
      S == SelectSeq(E, LAMBDA e : e.v.e = "ts" /\ e.v.pc = pc)
      R == 0..(c.reps - 1)
      on(x) == IF \E i \in DOMAIN M : M[i].t <= x /\ x < M[i].t + M[i].v.d THEN 1 ELSE 0
      hx == {mm.h[i].t : i \in DOMAIN mm.h}
      X == {x \in (hx \cup UNION {{start(r) + M[i].t, start(r) + M[i].t - 1, start(r) + M[i].t + M[i].v.d, start(r) + M[i].t + M[i].v.d - 1} :
                                     r \in R, i \in DOMAIN M}) : x >= start(0) - HEAD /\ x < start(c.reps - 1) + T}
      repOf(x) == (x - (start(0) - HEAD)) \div (T + HEAD)
      loc(x) == x - start(repOf(x))
      got(x) == mm.h[At(mm.h, x)]
      bad == {x \in X : got(x).dg # on(loc(x))}
      \* an edge has the fine delay of its pulse
      badfine == {<<r, i>> \in R \X DOMAIN M :
                    \/ got(start(r) + M[i].t).df # Fine(M[i].v.fs)
                    \/ on(M[i].t + M[i].v.d) = 0 /\ got(start(r) + M[i].t + M[i].v.d).df # Fine(M[i].v.fe)}
      refs == {mm.h[i].tr : i \in DOMAIN mm.h} \ {-100000}
      want == {start(r) + S[i].t : r \in R, i \in DOMAIN S}
      A == Tags(E, pc)
  IN (IF bad # {} THEN {<<"digital", <<"t", loc(MinOf(bad)), "rep", repOf(MinOf(bad)), "got", got(MinOf(bad)).dg>> >>}
      ELSE IF badfine # {} THEN {<<"digital-fine", badfine>>} ELSE {})
     \cup (IF Last(mm).dg # 0 THEN {<<"digital-end", Last(mm).dg>>} ELSE {})
     \cup (IF mm.p.sc # 0 THEN {<<"scope-left-open", mm.t>>} ELSE {})
     \cup (IF refs # want THEN {<<"time-reference", <<"want", want, "got", refs>> >>} ELSE {})
     \cup (IF s.tag # TagSettings(A) THEN {<<"tag-settings", <<"want", TagSettings(A), "got", s.tag>> >>} ELSE {})
     \* a labelled count is compared with its thresholds
     \cup {<<"count-threshold", <<"want", <<v.tl, v.th>>, "got", mm.thr>> >> : v \in
             {w \in A : w.label # 0 /\ \E lv \in {0, 1} :
                LET set == SelectSeq(mm.thr, LAMBDA x : x[1] = lv)
                IN set = <<>> \/ \E i \in DOMAIN set : set[i][2] # (IF lv = 0 THEN w.tl ELSE w.th)}}
     \cup (IF s.ath # c.pcs[pc].ath THEN {<<"digitization-threshold", <<"want", c.pcs[pc].ath, "got", s.ath>> >>} ELSE {})

\* clauses broken by the acquisitions
AcqClauses(c, s, mm, ev, E, out) ==
  LET pc == s.pc
      lat == c.pcs[pc].lat
      T == RepTime(c)
      start(r) == SYNC + lat + r * (T + HEAD) + HEAD
      L == Labelled(E)
      K0 == SelectSeq(E, LAMBDA e : e.v.e \in {"phs", "rst", "frq"} /\ e.v.ck = c.pcs[pc].ck)
      Kr == [r \in 0..(c.reps - 1) |-> IF L = <<>> THEN K0 ELSE SelectSeq(K0, LAMBDA e : Active(e, L, r, out, c.nodes))]
      A0 == SortSeq(SelectSeq(E, LAMBDA e : e.v.e = "a" /\ e.v.pc = pc), LAMBDA a, b : a.t < b.t)
      Ar == [r \in 0..(c.reps - 1) |-> IF L = <<>> THEN A0 ELSE SelectSeq(A0, LAMBDA e : Active(e, L, r, out, c.nodes))]
      RECURSIVE all(_)
      all(r) == IF r = c.reps THEN <<>>
                ELSE [i \in DOMAIN Ar[r] |-> [a |-> Ar[r][i].v, t |-> start(r) + Ar[r][i].t, r |-> r, p |-> Ar[r][i].p,
                                              it |-> Ar[r][i].l, l |-> Ar[r][i].t]] \o all(r + 1)
      W == all(0)
      win(a) == a.op \in {"acquire_ttl", "acquire_timetags"}
      G == SelectSeq(mm.acq, LAMBDA a : ~win(a) \/ a.en = 1)
      \* counting and time-tag windows close when their time is over
      Z == SelectSeq(mm.acq, LAMBDA a : win(a) /\ a.en = 0)
      Wt == SelectSeq(W, LAMBDA w : w.a.proto \in {"ttl", "tags"})
      Gt == SelectSeq(G, LAMBDA g : win(g))
      finebad == {i \in DOMAIN Wt : Wt[i].a.proto = "tags" /\
                    (Gt[i].fd # Fine(Wt[i].a.fs) \/ Z[i].fd # Fine(Wt[i].a.fe) \/ Gt[i].sc # Wt[i].a.sc)}
      snap(x) == mm.h[At(mm.h, x)]
      key(w) == IF Whole(w.a) THEN <<w.a.ch>> ELSE <<w.a.ch, IF w.a.ai >= 0 THEN <<"x", w.a.ai>> ELSE <<"n", w.p>>, IF w.a.app THEN <<w.r, w.it>> ELSE <<>>>>
      bin(g) == <<g.ix, g.bin>>
      kinds == {i \in DOMAIN W : (W[i].a.proto = "weighed") # (G[i].op = "acquire_weighed")
                   \/ (W[i].a.proto = "ttl") # (G[i].op = "acquire_ttl")
                   \/ (W[i].a.proto = "tags") # (G[i].op = "acquire_timetags")}
      wtab(w, p) == IF w < 0 THEN <<>> ELSE ev.wt[w + 1]
      same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], 3)
      badlen == {i \in DOMAIN W : \/ W[i].a.proto = "int" /\ s.intlen # W[i].a.d
                                  \/ W[i].a.proto = "weighed" /\
                                       (~same(wtab(G[i].w0, 0), c.tabs[W[i].a.wI]) \/ ~same(wtab(G[i].w1, 1), c.tabs[W[i].a.wQ]))}
      \* phase and frequency of the demodulation
      nco == IF c.pcs[pc].nco THEN DOMAIN W ELSE {}
      phbad == {i \in nco : \/ ~NearPh(snap(W[i].t).ph, SumPh(Kr[W[i].r], 1, W[i].l, ResetAt(Kr[W[i].r], W[i].l)), c.phtol)
                            \/ ~Near(snap(W[i].t).fr, FreqAt(Kr[W[i].r], c.pcs[pc].fr, W[i].l, W[i].r), 2)}
  IN IF Len(W) # Len(G) THEN {<<"acquisition-count", <<"want", Len(W), "got", Len(G)>>>>}
     ELSE LET late == {i \in DOMAIN W : W[i].t # G[i].t} IN
          (IF late # {} THEN {<<"acquisition-time", <<"want", W[MinOf(late)].t, "got", G[MinOf(late)].t>>>>} ELSE {})
          \cup (IF kinds # {} THEN {<<"acquisition-kind", MinOf(kinds)>>}
                ELSE IF badlen # {} THEN {<<"acquisition-window", MinOf(badlen)>>} ELSE {})
          \cup (IF \E i, j \in DOMAIN W : i < j /\ key(W[i]) # key(W[j]) /\ bin(G[i]) = bin(G[j])
                THEN {<<"bin-shared", [i \in DOMAIN G |-> bin(G[i])]>>} ELSE {})
          \cup (IF \E i, j \in DOMAIN W : i < j /\ key(W[i]) = key(W[j]) /\ bin(G[i]) # bin(G[j])
                THEN {<<"bin-split", [i \in DOMAIN G |-> bin(G[i])]>>} ELSE {})
          \cup (IF phbad # {} THEN {<<"acquisition-phase", <<MinOf(phbad), snap(W[MinOf(phbad)].t)>>>>} ELSE {})
          \cup MapClauses(c, s, E, W, G)
          \cup (IF c.held /\ c.failed = "" /\ DataShape(c) = <<>> THEN DataClauses(c, s, E, W, G) ELSE {})
          \cup (IF Len(Z) # Len(Wt) \/ Len(Gt) # Len(Wt)
                   \/ \E i \in DOMAIN Wt : Z[i].t + 4 # Wt[i].t + Wt[i].a.d \/ bin(Z[i]) # bin(Gt[i]) \/ Z[i].op # Gt[i].op
                THEN {<<"counting-window", Z>>}
                ELSE IF kinds = {} /\ finebad # {} THEN {<<"fine-window", <<Gt[MinOf(finebad)], Z[MinOf(finebad)]>> >>} ELSE {})

\* clauses broken by marker outputs: cs.pcs[pc].mk: bits this sequencer owns
\* when something plays on a port and clock: pulses, and offsets until they are zero; a loop
\* that plays, from its start to its end
PlayWindows(E, pc) ==
  LET P == SelectSeq(E, LAMBDA e : IsPulse(e) /\ e.v.pc = pc)
      F == SelectSeq(E, LAMBDA e : e.v.e = "o" /\ e.v.pc = pc)
      zero(i) == F[i].v.I = 0 /\ F[i].v.Q = 0
      next(i) == {j \in DOMAIN F : zero(j) /\ Before(F, i, j)}
      from(e, t) == IF e.g = <<>> THEN t ELSE e.g[1]
      upto(e, t) == IF e.g = <<>> THEN t ELSE e.g[2]
  IN {<<from(P[i], P[i].t), upto(P[i], P[i].t + P[i].v.d)>> : i \in DOMAIN P}
     \cup {LET n == CHOOSE j \in next(i) : \A x \in next(i) : x = j \/ Before(F, j, x)
           IN <<from(F[i], F[i].t), upto(F[n], F[n].t)>> : i \in {x \in DOMAIN F : ~zero(x) /\ next(x) # {}}}
BitOf(x, b) == (x \div (2 ^ b)) % 2
MarkClauses(c, s, mm, E) ==
  LET pc == s.pc
      lat == c.pcs[pc].lat
      T == RepTime(c)
      start(r) == SYNC + lat + r * (T + HEAD) + HEAD
      M == SelectSeq(E, LAMBDA e : e.v.e = "m" /\ e.v.pc = pc)
      bits == {c.pcs[pc].mkbits[i] : i \in DOMAIN c.pcs[pc].mkbits}
      on(x, b) == IF \E i \in DOMAIN M : M[i].v.b = b /\ M[i].t <= x /\ x < M[i].t + M[i].v.d THEN 1 ELSE 0
      dflt(b) == BitOf(c.pcs[pc].mk0, b)
      \* with automatic switching the switch is on from a buffer before to a buffer after what plays
      buf == c.pcs[pc].auto
      sw == c.pcs[pc].sw
      W == IF buf < 0 THEN {} ELSE PlayWindows(E, pc)
      auto(x) == IF \E w \in W : x >= 0 /\ w[1] - buf <= x /\ x < w[2] + buf THEN 1 ELSE 0
      want(x, b) == IF buf >= 0 /\ b = sw THEN auto(x)
                    ELSE IF on(x, b) = 1 THEN 1 - dflt(b) ELSE dflt(b)
      reps == {0, 1, c.reps - 1} \cap (0..(c.reps - 1))
      marks == UNION {{M[i].t - 1, M[i].t, M[i].t + 1, M[i].t + M[i].v.d - 1, M[i].t + M[i].v.d} : i \in DOMAIN M}
               \cup UNION {{w[1] - buf, w[1] - buf - 1, w[1], w[2] - 1, w[2] + buf - 1, w[2] + buf} : w \in W}
      hx == UNION {{mm.h[i].t - 1, mm.h[i].t} : i \in DOMAIN mm.h}
      X == {x \in (hx \cup UNION {{start(r) + b : b \in marks} : r \in reps}) :
              x >= start(0) - HEAD /\ x < start(c.reps - 1) + T}
      repOf(x) == (x - (start(0) - HEAD)) \div (T + HEAD)
      loc(x) == x - start(repOf(x))
      bad == {x \in X : \E b \in bits : BitOf(mm.h[At(mm.h, x)].mk, b) # want(loc(x), b)}
  IN IF bad # {} THEN {<<"marker", <<"t", loc(MinOf(bad)), "mask", mm.h[At(mm.h, MinOf(bad))].mk>>>>}
     ELSE IF \E b \in bits : BitOf(Last(mm).mk, b) # dflt(b) THEN {<<"marker-end", Last(mm).mk>>} ELSE {}

RECURSIVE SumLen(_, _)
SumLen(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i]) + SumLen(s, i + 1)
RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
StaticClauses(c, s) ==
  (IF Len(s.prog) > s.maxinstr /\ ~s.warned THEN {<<"program-too-long", Len(s.prog)>>} ELSE {})
  \cup (IF SumLen(s.wf, 1) > 16384 THEN {<<"waveform-memory", SumLen(s.wf, 1)>>} ELSE {})
  \cup (IF SumLen(s.wt, 1) > 16384 THEN {<<"weight-memory", SumLen(s.wt, 1)>>} ELSE {})
  \cup (IF s.dup # "" THEN {<<"duplicate-declaration", s.dup>>} ELSE {})
  \cup (IF Len(s.acqs) > 32 THEN {<<"too-many-declarations", Len(s.acqs)>>} ELSE {})
  \cup (IF \E i \in DOMAIN s.acqs : s.acqs[i] > 100000 THEN {<<"too-many-bins", s.acqs>>} ELSE {})

Final(c, s, mm, ev, out) ==
  LET E == Events(c) T == RepTime(c)
      total == SYNC + c.pcs[s.pc].lat + c.reps * (T + HEAD)
  IN IF mm.err # "" THEN {<<mm.err, <<mm.pc, IF mm.pc <= Len(s.prog) THEN s.prog[mm.pc] ELSE 0>>>>}
     ELSE IF ~mm.synced THEN {<<"never-synchronised", 0>>}
     ELSE StaticClauses(c, s)
          \cup (IF mm.t # total THEN {<<"total-time", <<"want", total, "got", mm.t>>>>} ELSE {})
          \cup (IF c.pcs[s.pc].sig THEN SignalClauses(c, s, mm, ev, E, out) ELSE {})
          \cup (IF c.pcs[s.pc].acq THEN AcqClauses(c, s, mm, ev, E, out) ELSE {})
          \cup (IF c.pcs[s.pc].dig THEN DigClauses(c, s, mm, E) ELSE {})
          \cup (IF c.pcs[s.pc].mkbits # <<>> THEN MarkClauses(c, s, mm, E) ELSE {})

(* ---- verdicts that need no run ---- *)
Upfront(c) ==
  IF Expect(c) = "reject" THEN (IF c.obs = "reject" THEN <<>> ELSE << <<"accepted-invalid", c.msg>> >>)
  ELSE IF c.obs = "reject" THEN (IF c.expect = "any" THEN <<>> ELSE << <<"rejected-valid", c.msg>> >>)
  ELSE IF {c.seqs[i].pc : i \in DOMAIN c.seqs} # UsedPcs(c) \/ Cardinality(UsedPcs(c)) # Len(c.seqs)
       THEN << <<"sequencers", <<[i \in DOMAIN c.seqs |-> c.seqs[i].pc], UsedPcs(c)>> >> >>
  ELSE IF \E l \in DOMAIN c.labels : AddrOf(c, l) \notin 1..15
       THEN << <<"trigger-address", [l \in DOMAIN c.labels |-> AddrOf(c, l)]>> >>
  ELSE IF \E l, n \in DOMAIN c.labels : l # n /\ AddrOf(c, l) = AddrOf(c, n)
       THEN << <<"trigger-address-shared", [l \in DOMAIN c.labels |-> AddrOf(c, l)]>> >>
  ELSE <<>>
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Judged(c) == Expect(c) # "reject" /\ c.obs # "reject"
Runs(c) == Judged(c) /\ c.run

Outs(c) == IF c.labels = <<>> THEN {<<>>}
           ELSE IF NOut(c) <= c.maxout THEN [1..NOut(c) -> {0, 1}]
           ELSE {[i \in 1..NOut(c) |-> (x \div (2 ^ ((i - 1) % c.maxout))) % 2] : x \in 0..(2 ^ c.maxout - 1)}

Init ==
  /\ k \in 1..Len(Cases)
  /\ \/ /\ q = 0 /\ O = <<>> /\ env = <<>> /\ m = [n |-> 0, err |-> "", done |-> FALSE, pc |-> 0, t |-> 0]
     \/ /\ Runs(Cases[k]) /\ Upfront(Cases[k]) = <<>>
        /\ q \in DOMAIN Cases[k].seqs
        /\ O \in Outs(Cases[k])
        /\ env = EnvOf(Cases[k], Cases[k].seqs[q], O)
        /\ m = Machine0(Cases[k].seqs[q].sett)
JudgeCase ==
  /\ q = 0 /\ ~m.done
  /\ m' = [m EXCEPT !.done = TRUE] /\ UNCHANGED <<k, q, O, env>>
  /\ LET f == IF Upfront(Case) # <<>> \/ ~Judged(Case) THEN Upfront(Case)
              ELSE IF Case.run THEN ChannelClauses(Case) \o (IF Case.held THEN UploadClauses(Case) \o (IF Case.failed = "" THEN DataShape(Case) ELSE <<>>) ELSE <<>>)
              ELSE \* programs too long to be run here
                   AsSeq(UNION {StaticClauses(Case, Case.seqs[i]) : i \in DOMAIN Case.seqs})
     IN IF f = <<>> THEN Verdict(k, "ok", 0) ELSE \A i \in DOMAIN f : Verdict(k, f[i][1], f[i][2])
StepSeq ==
  /\ q # 0 /\ ~m.done
  /\ m' = Step(m, Case.seqs[q].prog, env)
  /\ UNCHANGED <<k, q, O, env>>
  /\ m'.done => LET f == Final(Case, Case.seqs[q], m', env, O) IN
       IF f = {} THEN Verdict(k, "ok", q)
       ELSE \A x \in f : Verdict(k, x[1], <<"pc", Case.seqs[q].pc, x[2], O>>)
Next == JudgeCase \/ StepSeq
Spec == Init /\ [][Next]_vars
=============================================================================
