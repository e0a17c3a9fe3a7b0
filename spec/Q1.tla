-------------------------------- MODULE Q1 --------------------------------
(* The Q1 sequence processor of a Qblox module, one instruction per step.  *)
(* Classical instructions take no real time; real-time instructions        *)
(* advance the sequencer clock by their last argument. Parameters written  *)
(* by set_... and reset_ph are pending until the next latching instruction *)
(* (upd_param, play, acquire...).                                          *)
(*                                                                         *)
(* prog: sequence of [op, a], a: sequence of [k |-> "i"|"r"|"l", v]        *)
(*       (labels are resolved to 1-based program positions)                *)
(* env:  [wf, wt: function/sequence of sample tables by index+1 (<<>> when *)
(*        undeclared), acqs: number of bins by acquisition index+1,        *)
(*        trig: sequence of [t, addr] trigger arrivals]                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

NREGS == 64
MAXWAIT == 65535
GAINMAX == 32767
PHASES == 1000000000
FREQMAX == 2000000000

\* arguments: number of arguments of each instruction
NArgs ==
  [illegal |-> 0, stop |-> 0, nop |-> 0, jmp |-> 1, jge |-> 3, jlt |-> 3, loop |-> 2, move |-> 2,
   not |-> 2, add |-> 3, sub |-> 3, and |-> 3, or |-> 3, xor |-> 3, asl |-> 3, asr |-> 3,
   set_mrk |-> 1, set_freq |-> 1, reset_ph |-> 0, set_ph |-> 1, set_ph_delta |-> 1,
   set_awg_gain |-> 2, set_awg_offs |-> 2, set_cond |-> 4, set_digital |-> 3, set_time_ref |-> 0,
   set_scope_en |-> 1, upd_param |-> 1, play |-> 3, acquire |-> 3, acquire_weighed |-> 5,
   acquire_ttl |-> 4, acquire_timetags |-> 5, acquire_digital |-> 3, set_latch_en |-> 2,
   latch_rst |-> 1, wait |-> 1, wait_sync |-> 1, wait_trigger |-> 2, upd_thres |-> 3]

RealTime == {"upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl", "acquire_timetags",
             "acquire_digital", "set_latch_en", "latch_rst", "wait", "wait_sync", "wait_trigger", "upd_thres"}
Params == {"set_mrk", "set_freq", "reset_ph", "set_ph", "set_ph_delta", "set_awg_gain",
           "set_awg_offs", "set_digital", "set_time_ref", "set_scope_en"}
Latching == {"upd_param", "play", "acquire", "acquire_weighed", "acquire_ttl", "acquire_timetags",
             "acquire_digital"}
Acquires == {"acquire", "acquire_weighed", "acquire_ttl", "acquire_timetags", "acquire_digital"}

(* ---- machine state ----                                                 *)
(* p: pending parameters; s: what is in force since s.t                     *)
Snap0(sett) == [t |-> -100000, o0 |-> sett.o0, o1 |-> sett.o1, g0 |-> sett.g0, g1 |-> sett.g1,
                ph |-> 0, fr |-> sett.fr, rs |-> -100000, mk |-> 0, w0 |-> -1, w1 |-> -1, wt |-> 0, dg |-> 0, df |-> 0, tr |-> -100000]
Machine0(sett) ==
  [pc |-> 1, R |-> << >>, t |-> 0, synced |-> FALSE, n |-> 0, err |-> "", done |-> FALSE,
   p |-> [o0 |-> sett.o0, o1 |-> sett.o1, g0 |-> sett.g0, g1 |-> sett.g1, ph |-> 0, fr |-> sett.fr,
          rs |-> FALSE, mk |-> 0, dg |-> 0, df |-> 0, tr |-> FALSE, sc |-> 0],
   h |-> << Snap0(sett) >>, acq |-> << >>,
   cond |-> [en |-> FALSE, mask |-> 0, op |-> 0, els |-> 0],
   latch |-> FALSE, lrst |-> -1, thr |-> <<>>]

Bad(m, e) == [m EXCEPT !.err = e, !.done = TRUE]
HasReg(m, r) == r \in DOMAIN m.R
\* value of argument i; only used after ArgsOk
Val(m, a) == IF a.k = "r" THEN m.R[a.v] ELSE a.v
SetReg(m, r, v) == [m EXCEPT !.R = (r :> v) @@ m.R]
Dest(op) == CASE op \in {"move", "not"} -> 2
              [] op \in {"add", "sub", "and", "or", "xor", "asl", "asr"} -> 3
              [] OTHER -> 0

ArgsOk(m, in) ==
  IF in.op \notin DOMAIN NArgs THEN "unknown-instruction"
  ELSE IF in.op = "illegal" THEN "illegal-instruction"
  ELSE IF Len(in.a) # NArgs[in.op] THEN "argument-count"
  ELSE IF \E i \in DOMAIN in.a : in.a[i].k = "l" /\ in.a[i].v = 0 THEN "undefined-label"
  ELSE IF \E i \in DOMAIN in.a : in.a[i].k = "r" /\ (in.a[i].v < 0 \/ in.a[i].v >= NREGS) THEN "no-such-register"
  ELSE IF \E i \in DOMAIN in.a : in.a[i].k = "r" /\ i # Dest(in.op) /\ ~HasReg(m, in.a[i].v)
       THEN "register-read-before-write"
  ELSE IF Dest(in.op) # 0 /\ in.a[Dest(in.op)].k # "r" THEN "destination-not-a-register"
  ELSE IF in.op \in {"add", "sub", "and", "or", "xor", "asl", "asr", "jge", "jlt", "loop"} /\ in.a[1].k # "r"
       THEN "source-not-a-register"
  ELSE IF in.op \in {"jmp"} /\ in.a[1].k # "l" THEN "jump-target"
  ELSE IF in.op = "loop" /\ in.a[2].k # "l" THEN "jump-target"
  ELSE IF in.op \in {"jge", "jlt"} /\ in.a[3].k # "l" THEN "jump-target"
  ELSE ""

In(x, lo, hi) == lo <= x /\ x <= hi
Declared(tab, i) == i >= 0 /\ i + 1 <= Len(tab) /\ tab[i + 1] # <<>>

\* range checks with the values the arguments have now
RangeOk(m, in, env) ==
  LET V(i) == Val(m, in.a[i]) L == Len(in.a) IN
  CASE in.op \in {"wait"} -> IF In(V(1), 1, MAXWAIT) THEN "" ELSE "wait-out-of-range"
    [] in.op \in {"wait_sync", "upd_param", "latch_rst"} -> IF In(V(1), 4, MAXWAIT) THEN "" ELSE "duration-out-of-range"
    [] in.op = "wait_trigger" -> IF In(V(2), 4, MAXWAIT) /\ In(V(1), 1, 15) THEN "" ELSE "duration-out-of-range"
    [] in.op = "set_latch_en" -> IF In(V(2), 4, MAXWAIT) THEN "" ELSE "duration-out-of-range"
    [] in.op = "play" ->
         IF ~In(V(3), 4, MAXWAIT) THEN "duration-out-of-range"
         ELSE IF in.a[1].k # in.a[2].k THEN "mixed-argument-kinds"
         ELSE IF ~Declared(env.wf, V(1)) \/ ~Declared(env.wf, V(2)) THEN "undeclared-waveform" ELSE ""
    [] in.op = "acquire" ->
         IF ~In(V(3), 4, MAXWAIT) THEN "duration-out-of-range"
         ELSE IF in.a[1].k # "i" THEN "acquisition-index-not-immediate"
         ELSE IF ~(V(1) >= 0 /\ V(1) + 1 <= Len(env.acqs)) THEN "undeclared-acquisition"
         ELSE IF env.acqs[V(1) + 1] = 0 THEN "undeclared-acquisition"
         ELSE IF ~In(V(2), 0, env.acqs[V(1) + 1] - 1) THEN "bin-not-declared" ELSE ""
    [] in.op = "acquire_weighed" ->
         IF ~In(V(5), 4, MAXWAIT) THEN "duration-out-of-range"
         ELSE IF in.a[1].k # "i" THEN "acquisition-index-not-immediate"
         ELSE IF in.a[2].k # in.a[3].k \/ in.a[3].k # in.a[4].k THEN "mixed-argument-kinds"
         ELSE IF ~(V(1) >= 0 /\ V(1) + 1 <= Len(env.acqs)) THEN "undeclared-acquisition"
         ELSE IF env.acqs[V(1) + 1] = 0 THEN "undeclared-acquisition"
         ELSE IF ~In(V(2), 0, env.acqs[V(1) + 1] - 1) THEN "bin-not-declared"
         ELSE IF ~Declared(env.wt, V(3)) \/ ~Declared(env.wt, V(4)) THEN "undeclared-weight" ELSE ""
    [] in.op \in {"acquire_ttl", "acquire_timetags"} ->
         IF ~In(V(L), 4, MAXWAIT) THEN "duration-out-of-range"
         ELSE IF in.a[1].k # "i" THEN "acquisition-index-not-immediate"
         ELSE IF ~(V(1) >= 0 /\ V(1) + 1 <= Len(env.acqs)) THEN "undeclared-acquisition"
         ELSE IF env.acqs[V(1) + 1] = 0 THEN "undeclared-acquisition"
         ELSE IF ~In(V(2), 0, env.acqs[V(1) + 1] - 1) THEN "bin-not-declared"
         ELSE IF V(3) \notin {0, 1} THEN "enable-out-of-range"
         ELSE IF in.op = "acquire_timetags" /\ (~In(V(4), 0, 2047) \/ in.a[2].k # in.a[4].k)
              THEN "fine-delay-argument" ELSE ""
    [] in.op = "set_awg_gain" -> IF In(V(1), -GAINMAX - 1, GAINMAX) /\ In(V(2), -GAINMAX - 1, GAINMAX) THEN
                                   (IF in.a[1].k # in.a[2].k THEN "mixed-argument-kinds" ELSE "") ELSE "gain-out-of-range"
    [] in.op = "set_awg_offs" -> IF In(V(1), -GAINMAX - 1, GAINMAX) /\ In(V(2), -GAINMAX - 1, GAINMAX) THEN
                                   (IF in.a[1].k # in.a[2].k THEN "mixed-argument-kinds" ELSE "") ELSE "offset-out-of-range"
    [] in.op = "set_freq" -> IF In(V(1), -FREQMAX, FREQMAX) THEN "" ELSE "frequency-out-of-range"
    [] in.op \in {"set_ph", "set_ph_delta"} -> IF In(V(1), 0, PHASES) THEN "" ELSE "phase-out-of-range"
    [] in.op = "set_mrk" -> IF In(V(1), 0, 15) THEN "" ELSE "marker-out-of-range"
    [] in.op = "set_digital" -> IF In(V(1), 0, 1) /\ In(V(3), 0, 2047) THEN "" ELSE "digital-out-of-range"
    [] in.op = "set_scope_en" -> IF V(1) \in {0, 1} THEN "" ELSE "scope-out-of-range"
    [] in.op = "upd_thres" -> IF V(1) \in {0, 1} /\ V(2) >= 0 /\ In(V(3), 4, MAXWAIT) THEN "" ELSE "threshold-out-of-range"
    [] in.op = "set_cond" ->
         IF V(1) \notin {0, 1} \/ V(3) \notin 0..5 THEN "condition-argument"
         ELSE IF V(1) = 1 /\ ~(In(V(2), 1, 32767) /\ In(V(4), 4, MAXWAIT)) THEN "condition-argument" ELSE ""
    [] OTHER -> ""

(* ---- conditions ---- *)
Count(m, env, addr) ==
  Cardinality({i \in DOMAIN env.trig : env.trig[i].addr = addr /\ env.trig[i].t > m.lrst /\ env.trig[i].t <= m.t})
\* a flag is up when the counter reached its threshold (possibly inverted)
Flag(m, env, addr) ==
  LET th == IF addr \in DOMAIN env.thr THEN env.thr[addr] ELSE [count |-> 1, inv |-> FALSE]
  IN (Count(m, env, addr) >= th.count) # th.inv
Selected(mask) == {a \in 1..15 : (mask & (2 ^ (a - 1))) # 0}
CondHolds(m, env) ==
  LET S == Selected(m.cond.mask) up == {a \in S : Flag(m, env, a)} IN
  CASE m.cond.op = 0 -> up # {}
    [] m.cond.op = 1 -> up = {}
    [] m.cond.op = 2 -> up = S
    [] m.cond.op = 3 -> up # S
    [] m.cond.op = 4 -> Cardinality(up) % 2 = 1
    [] m.cond.op = 5 -> Cardinality(up) % 2 = 0
Skip(m, env) == m.cond.en /\ ~CondHolds(m, env)

(* ---- latching ---- *)
Last(m) == m.h[Len(m.h)]
Latched(m) ==
  LET l == Last(m) IN
  [t |-> m.t, o0 |-> m.p.o0, o1 |-> m.p.o1, g0 |-> m.p.g0, g1 |-> m.p.g1,
   ph |-> m.p.ph, fr |-> m.p.fr, rs |-> IF m.p.rs THEN m.t ELSE l.rs, mk |-> m.p.mk,
   w0 |-> l.w0, w1 |-> l.w1, wt |-> l.wt, dg |-> m.p.dg, df |-> m.p.df, tr |-> IF m.p.tr THEN m.t ELSE l.tr]
Push(m, s) == LET l == Last(m) IN
  [m EXCEPT !.p.rs = FALSE, !.p.tr = FALSE, !.h = IF [s EXCEPT !.t = l.t] = l THEN @ ELSE Append(@, s)]
Latch(m) == Push(m, Latched(m))

Adv(m, d) == [m EXCEPT !.t = @ + d, !.pc = @ + 1]
Nx(m) == [m EXCEPT !.pc = @ + 1]

DoParam(m, in) ==
  LET V(i) == Val(m, in.a[i]) IN
  Nx(CASE in.op = "set_mrk" -> [m EXCEPT !.p.mk = V(1)]
       [] in.op = "set_freq" -> [m EXCEPT !.p.fr = V(1)]
       [] in.op = "reset_ph" -> [m EXCEPT !.p.rs = TRUE, !.p.ph = 0]
       [] in.op = "set_ph" -> [m EXCEPT !.p.ph = V(1) % PHASES]
       [] in.op = "set_ph_delta" -> [m EXCEPT !.p.ph = (@ + V(1)) % PHASES]
       [] in.op = "set_awg_gain" -> [m EXCEPT !.p.g0 = V(1), !.p.g1 = V(2)]
       [] in.op = "set_awg_offs" -> [m EXCEPT !.p.o0 = V(1), !.p.o1 = V(2)]
       [] in.op = "set_digital" -> [m EXCEPT !.p.dg = V(1), !.p.df = V(3)]
       [] in.op = "set_time_ref" -> [m EXCEPT !.p.tr = TRUE]
       [] in.op = "set_scope_en" -> [m EXCEPT !.p.sc = V(1)]
       [] OTHER -> m)

DoRealTime(m, in) ==
  LET V(i) == Val(m, in.a[i])
      d == V(Len(in.a))
  IN CASE in.op = "wait_sync" -> [Adv(m, d) EXCEPT !.t = d, !.synced = TRUE, !.lrst = -1]
       [] in.op = "play" -> Adv(Push(m, [Latched(m) EXCEPT !.w0 = V(1), !.w1 = V(2), !.wt = m.t]), d)
       [] in.op = "upd_param" -> Adv(Latch(m), d)
       [] in.op \in Acquires ->
            LET m2 == Latch(m) IN
            Adv([m2 EXCEPT !.acq = Append(@,
              [t |-> m.t, op |-> in.op, ix |-> V(1), bin |-> V(2), d |-> d,
               w0 |-> IF in.op = "acquire_weighed" THEN V(3) ELSE -1,
               w1 |-> IF in.op = "acquire_weighed" THEN V(4) ELSE -1,
               en |-> IF in.op \in {"acquire_ttl", "acquire_timetags"} THEN V(3) ELSE -1,
               fd |-> IF in.op = "acquire_timetags" THEN V(4) ELSE 0, sc |-> m.p.sc])], d)
       [] in.op = "set_latch_en" -> Adv([m EXCEPT !.latch = (V(1) = 1)], d)
       [] in.op = "latch_rst" -> Adv([m EXCEPT !.lrst = m.t], d)
       [] in.op = "upd_thres" -> Adv([m EXCEPT !.thr = Append(@, <<V(1), V(2)>>)], d)
       [] OTHER -> Adv(m, d)

DoClassical(m, in) ==
  LET V(i) == Val(m, in.a[i]) IN
  CASE in.op = "stop" -> [m EXCEPT !.done = TRUE]
    [] in.op = "nop" -> Nx(m)
    [] in.op = "jmp" -> [m EXCEPT !.pc = in.a[1].v]
    [] in.op = "jge" -> IF V(1) >= V(2) THEN [m EXCEPT !.pc = in.a[3].v] ELSE Nx(m)
    [] in.op = "jlt" -> IF V(1) < V(2) THEN [m EXCEPT !.pc = in.a[3].v] ELSE Nx(m)
    [] in.op = "loop" -> LET m2 == SetReg(m, in.a[1].v, V(1) - 1)
                         IN IF V(1) - 1 # 0 THEN [m2 EXCEPT !.pc = in.a[2].v] ELSE Nx(m2)
    [] in.op = "move" -> Nx(SetReg(m, in.a[2].v, V(1)))
    [] in.op = "not"  -> Nx(SetReg(m, in.a[2].v, -1 - V(1)))
    [] in.op = "add"  -> Nx(SetReg(m, in.a[3].v, V(1) + V(2)))
    [] in.op = "sub"  -> Nx(SetReg(m, in.a[3].v, V(1) - V(2)))
    [] in.op = "and"  -> Nx(SetReg(m, in.a[3].v, V(1) & V(2)))
    [] in.op = "or"   -> Nx(SetReg(m, in.a[3].v, V(1) | V(2)))
    [] in.op = "xor"  -> Nx(SetReg(m, in.a[3].v, V(1) ^^ V(2)))
    [] in.op = "asl"  -> Nx(SetReg(m, in.a[3].v, V(1) * (2 ^ V(2))))
    [] in.op = "asr"  -> Nx(SetReg(m, in.a[3].v, shiftR(V(1), V(2))))

DoCond(m, in) ==
  LET V(i) == Val(m, in.a[i]) IN
  Nx([m EXCEPT !.cond = [en |-> V(1) = 1, mask |-> V(2), op |-> V(3), els |-> V(4)]])

\* one instruction
Step(m0, prog, env) ==
  LET m == [m0 EXCEPT !.n = @ + 1] IN
  IF m.pc > Len(prog) THEN Bad(m, "ran-off-the-end")
  ELSE IF m.n > env.fuel \/ m.t > env.tmax THEN Bad(m, "does-not-stop")
  ELSE LET in == prog[m.pc] e1 == ArgsOk(m, in) IN
    IF e1 # "" THEN Bad(m, e1)
    ELSE LET e2 == RangeOk(m, in, env) IN
      IF e2 # "" THEN Bad(m, e2)
      ELSE IF in.op = "set_cond" THEN
             (IF Val(m, in.a[1]) = 1 /\ ~m.latch THEN Bad(m, "condition-without-latch") ELSE DoCond(m, in))
      ELSE IF in.op \in Params THEN (IF Skip(m, env) THEN Nx(m) ELSE DoParam(m, in))
      ELSE IF in.op \in RealTime THEN (IF Skip(m, env) THEN Adv(m, m.cond.els) ELSE DoRealTime(m, in))
      ELSE DoClassical(m, in)

(* ---- reading the history ---- *)
\* index of the snapshot in force at time x
At(h, x) == Cardinality({i \in DOMAIN h : h[i].t <= x})
Sample(tab, i) == IF i >= 0 /\ i < Len(tab) THEN tab[i + 1] ELSE 0
Tab(env, w) == IF w < 0 THEN <<>> ELSE env.wf[w + 1]
Out0(s, x, env) == s.o0 + (s.g0 * Sample(Tab(env, s.w0), x - s.wt)) \div 32768
Out1(s, x, env) == s.o1 + (s.g1 * Sample(Tab(env, s.w1), x - s.wt)) \div 32768
=============================================================================
