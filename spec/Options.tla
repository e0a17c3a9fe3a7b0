------------------------------ MODULE Options ------------------------------
(* Hardware options and the instruments they reach. A configuration gives    *)
(* options to port-clocks; a schedule uses some port-clocks; it is compiled  *)
(* and prepared on a cluster that keeps what earlier schedules set. Every    *)
(* option of a used port-clock is then in effect on the channel to which its *)
(* port is wired; nothing else has changed; contradictory or unsupported     *)
(* options are refused.                                                      *)
(* Units: offsets mV; gains of sequencers and their offsets 1/8; ratios %;   *)
(* angles degrees; frequencies MHz; thresholds mV; filter values 1/8.        *)
EXTENDS Replay
CONSTANTS Used, Most     \* the port-clocks of this model (indices of PC); most at once
VARIABLE inst            \* what was set on the modules: slot -> (parameter -> value)
Range(s) == {s[i] : i \in DOMAIN s}
pc(s, t, k, io, n, f, a) == [slot |-> s, typ |-> t, kind |-> k, io |-> io, n |-> n, f |-> f, acq |-> a]
\* port-clocks; those on one channel share a port; io "both": an output with the input of the same number
PC == << pc(1, "QCM", "complex", "output", 0, 60, FALSE),    \* 1
         pc(1, "QCM", "complex", "output", 0, 80, FALSE),
         pc(1, "QCM", "real", "output", 2, 60, FALSE),
         pc(1, "QCM", "real", "output", 3, 60, FALSE),
         pc(2, "QRM", "complex", "both", 0, 60, TRUE),       \* 5
         pc(2, "QRM", "complex", "both", 0, 80, FALSE),
         pc(3, "QRM", "real", "output", 0, 60, FALSE),
         pc(3, "QRM", "real", "input", 1, 80, TRUE),
         pc(4, "QCM_RF", "complex", "output", 0, 5000, FALSE),
         pc(4, "QCM_RF", "complex", "output", 0, 5100, FALSE), \* 10
         pc(4, "QCM_RF", "complex", "output", 1, 5000, FALSE),
         pc(5, "QRM_RF", "complex", "both", 0, 5000, TRUE),
         pc(5, "QRM_RF", "complex", "both", 0, 5100, FALSE),
         pc(6, "QRC", "complex", "both", 0, 5000, TRUE),
         pc(6, "QRC", "complex", "output", 1, 5100, FALSE),  \* 15
         pc(6, "QRC", "complex", "output", 2, 5000, FALSE),
         pc(6, "QRC", "complex", "output", 5, 5000, FALSE),
         pc(7, "QTM", "digital", "input", 0, 0, TRUE),
         pc(7, "QTM", "digital", "input", 3, 0, TRUE),
         pc(7, "QTM", "digital", "output", 4, 0, FALSE),     \* 20
         pc(8, "QCM", "complex", "output", 0, 60, FALSE),
         pc(8, "QCM", "complex", "output", 1, 60, FALSE),
         pc(8, "QCM", "real", "output", 3, 60, FALSE) >>
RF(i) == PC[i].typ \in {"QCM_RF", "QRM_RF", "QRC"}
Mixers(i) == PC[i].typ # "QRC" /\ PC[i].kind = "complex"     \* has an IQ mixer whose offsets can be corrected
Measures(i) == PC[i].io # "output"
Slots == {PC[i].slot : i \in Used}
TypeOf(s) == PC[CHOOSE i \in DOMAIN PC : PC[i].slot = s].typ
------------------------------------------------------------------------------
(* options of a port-clock: "not given" is <<>>                              *)
May(S, p) == IF ~Record THEN {<<>>} \cup {<<x>> : x \in S}
             ELSE IF Random(1 .. 10) <= p THEN {<<Random(S)>>} ELSE {<<>>}
None == [gain |-> <<>>, oatt |-> <<>>, iatt |-> <<>>, mc |-> <<>>, so |-> <<>>, dc |-> <<>>, dt |-> <<>>, lo |-> <<>>, nco |-> <<>>]
Gains(i) == IF PC[i].typ # "QRM" \/ ~Measures(i) THEN {<<>>}
            ELSE IF PC[i].kind = "real" THEN May(IF Record THEN {-6, 0, 3, 20} ELSE {1, 2}, 6)
            ELSE May({<<a, b>> : a \in IF Record THEN {-6, 5} ELSE {1, 2}, b \in IF Record THEN {0, 7} ELSE {1}}, 6)
OAtts(i) == IF RF(i) THEN May(IF Record THEN {0, 2, 10, 30} ELSE {0, 2}, 6) ELSE {<<>>}
IAtts(i) == IF PC[i].typ = "QRM_RF" THEN May(IF Record THEN {0, 4, 20} ELSE {4}, 5) ELSE {<<>>}
Offs(i) == IF ~Record THEN {<<>>, <<1>>} ELSE {<<>>, <<Random({0, -20, 15, 50, -1})>>, <<IF Seldom /\ Seldom THEN 3000 ELSE 7>>}
Corrections(i) ==
  IF ~Mixers(i) THEN {<<>>}
  ELSE IF ~Record THEN {<<>>, <<[i |-> <<1>>, q |-> <<2>>, ratio |-> 100, phase |-> 0, lo |-> "off", sb |-> FALSE]>>}
  ELSE LET auto == Random({"off", "off", "on_lo_freq_change", "on_lo_interm_freq_change"})
           a == IF RF(i) THEN auto ELSE "off"
           sb == RF(i) /\ Random(1 .. 3) = 1
       IN  May({[i |-> IF a # "off" THEN <<>> ELSE Random(Offs(i)), q |-> IF a # "off" THEN <<>> ELSE Random(Offs(i)),
                 ratio |-> IF sb THEN 100 ELSE Random({50, 95, 100, 110, 200}), phase |-> IF sb THEN 0 ELSE Random({-45, -3, 0, 7, 45}),
                 lo |-> a, sb |-> sb]}, 6)
SeqOpts(i) ==
  IF PC[i].typ = "QTM" \/ ~Record THEN {<<>>}
  ELSE May({[oi |-> Random(-8 .. 8), oq |-> Random(-8 .. 8), gi |-> Random(-8 .. 8), gq |-> Random(-8 .. 8),
             ttl |-> IF PC[i].typ = "QRM" /\ Measures(i) THEN Random({<<>>, <<2>>, <<-3>>}) ELSE <<>>]}, 5)
Filter(z) == [exp |-> [x \in 1 .. 4 |-> IF Random(1 .. 3) = 1 THEN <<IF Seldom /\ Seldom THEN 5 ELSE Random({6, 100, 2000}), IF Seldom /\ Seldom THEN 8 ELSE Random({-8, -3, 0, 7})>> ELSE <<>>],
           \* a finite response of n coefficients: the first is v, the others 0
           fir |-> IF Random(1 .. 3) = 1 THEN <<IF Seldom /\ Seldom THEN Random({-17, 16, 40}) ELSE Random({-16, 3, 15}), IF Seldom /\ Seldom THEN 31 ELSE 32>> ELSE <<>>]
Filters(i) == IF PC[i].typ # "QCM" \/ ~Record THEN {<<>>}
              ELSE IF PC[i].kind = "real" THEN May({<<Filter(i)>>}, 4) ELSE May({<<Filter(i), Filter(-i)>>}, 4)
Thresholds(i) == IF PC[i].typ = "QTM" /\ Measures(i) THEN May({500, -200, 1200}, 6) ELSE {<<>>}
Freqs(i) == IF ~RF(i) THEN {[lo |-> <<>>, nco |-> <<>>]}
            ELSE IF ~Record THEN {[lo |-> <<l>>, nco |-> <<>>] : l \in {4800, 4900}}
            ELSE LET l == Random({4800, 4900}) IN IF Random(1 .. 2) = 1 THEN {[lo |-> <<l>>, nco |-> <<>>]} ELSE {[lo |-> <<>>, nco |-> <<PC[i].f - l>>]}
Opts(i) == {[gain |-> g, oatt |-> o, iatt |-> a, mc |-> m, so |-> s, dc |-> d, dt |-> t, lo |-> f.lo, nco |-> f.nco] :
              g \in Gains(i), o \in OAtts(i), a \in IAtts(i), m \in Corrections(i), s \in SeqOpts(i), d \in Filters(i), t \in Thresholds(i), f \in Freqs(i)}
------------------------------------------------------------------------------
(* U: the port-clocks that the schedule uses, c: i -> options                *)
Given(U, c, s, f(_), P(_)) == {f(i) : i \in {x \in U : PC[x].slot = s /\ P(x)}}
Lo(c, i) == IF c[i].lo # <<>> THEN c[i].lo[1] ELSE PC[i].f - c[i].nco[1]
Nco(c, i) == IF ~RF(i) THEN PC[i].f ELSE PC[i].f - Lo(c, i)
Same(i, j) == PC[i].slot = PC[j].slot /\ PC[i].kind = PC[j].kind /\ PC[i].n = PC[j].n /\ PC[i].io = PC[j].io
\* the gain that port-clock i asks of input k
GainOf(c, i, k) == IF c[i].gain = <<>> THEN <<>>
                   ELSE IF PC[i].kind = "real" THEN (IF PC[i].n = k THEN c[i].gain ELSE <<>>)
                   ELSE <<c[i].gain[1][k + 1]>>
Gain(U, c, s, k) == {GainOf(c, i, k) : i \in {x \in U : PC[x].slot = s}} \ {<<>>}
Out(U, s, n) == {x \in U : PC[x].slot = s /\ PC[x].kind = "complex" /\ PC[x].io # "input" /\ PC[x].n = n}
OAtt(U, c, s, n) == {c[i].oatt : i \in Out(U, s, n)} \ {<<>>}
IAtt(U, c, s) == {c[i].iatt : i \in {x \in U : PC[x].slot = s}} \ {<<>>}
Corr(U, c, s, n) == {c[i].mc[1] : i \in {x \in Out(U, s, n) : c[x].mc # <<>>}}
OffI(U, c, s, n) == {m.i : m \in Corr(U, c, s, n)} \ {<<>>}
OffQ(U, c, s, n) == {m.q : m \in Corr(U, c, s, n)} \ {<<>>}
Modes(U, c, s, n) == {m.lo : m \in Corr(U, c, s, n)} \ {"off"}
Los(U, c, s, n) == {Lo(c, i) : i \in {x \in Out(U, s, n) : RF(x)}}
FiltersOn(U, c, s, k) ==   \* filters given to output path k
  {i \in U : PC[i].slot = s /\ c[i].dc # <<>> /\ k \in (IF PC[i].kind = "real" THEN {PC[i].n} ELSE {2 * PC[i].n, 2 * PC[i].n + 1})}
FilterAt(U, c, s, k) == LET i == CHOOSE x \in FiltersOn(U, c, s, k) : TRUE
                        IN  IF PC[i].kind = "real" THEN c[i].dc[1][1] ELSE c[i].dc[1][(k % 2) + 1]
BadFilter(f) == \/ \E x \in DOMAIN f.exp : f.exp[x] # <<>> /\ (f.exp[x][1] < 6 \/ f.exp[x][2] < -8 \/ f.exp[x][2] >= 8)
                \/ f.fir # <<>> /\ (f.fir[1] < -16 \/ f.fir[1] >= 16 \/ f.fir[2] # 32)
Limit(t) == CASE t = "QCM" -> 2500 [] t = "QRM" -> 500 [] OTHER -> 50
Many(S) == Cardinality(S) > 1
Refusals(U, c) ==
  (IF \E s \in Slots, k \in {0, 1} : Many(Gain(U, c, s, k)) THEN {"input-gain"} ELSE {})
  \cup (IF \E s \in Slots, n \in 0 .. 5 : Many(OAtt(U, c, s, n)) THEN {"output-attenuation"} ELSE {})
  \cup (IF \E s \in Slots : Many(IAtt(U, c, s)) THEN {"input-attenuation"} ELSE {})
  \cup (IF \E s \in Slots, n \in 0 .. 1 : Many(OffI(U, c, s, n)) \/ Many(OffQ(U, c, s, n)) THEN {"offset"} ELSE {})
  \cup (IF \E s \in Slots, n \in 0 .. 1 : Many(Modes(U, c, s, n)) THEN {"calibration"} ELSE {})
  \cup (IF \E s \in Slots, n \in 0 .. 5 : Many(Los(U, c, s, n)) THEN {"lo"} ELSE {})
  \cup (IF \E s \in Slots, k \in 0 .. 3 : Many(FiltersOn(U, c, s, k)) THEN {"filter-twice"} ELSE {})
  \cup (IF \E i \in U : c[i].mc # <<>> /\ \E v \in Range(c[i].mc[1].i \o c[i].mc[1].q) : v > Limit(PC[i].typ) \/ v < -Limit(PC[i].typ) THEN {"offset-range"} ELSE {})
  \cup (IF \E i \in U : c[i].dc # <<>> /\ \E x \in Range(c[i].dc[1]) : BadFilter(x) THEN {"filter-range"} ELSE {})
\* one of several port-clocks on an output says "no calibration", or has offsets of one component only: how these
\* are combined is left open
Open(U, c) == \E s \in Slots, n \in 0 .. 1 : Modes(U, c, s, n) # {} /\ (OffI(U, c, s, n) \cup OffQ(U, c, s, n) # {} \/ "off" \in {m.lo : m \in Corr(U, c, s, n)})
------------------------------------------------------------------------------
(* what a module is set to                                                   *)
One(S) == (CHOOSE x \in S : TRUE)[1]
P(p, v) == [p |-> p, v |-> v]
If(b, S) == IF b THEN S ELSE {}
N(x) == ToString(x)
OffName(t, n, q) == IF t \in {"QCM", "QRM"} THEN "out" \o N(2 * n + q) \o "_offset" ELSE "out" \o N(n) \o "_offset_path" \o N(q)
LoName(t, n) == CASE t = "QRM_RF" -> "out0_in0_lo_freq"
                  [] t = "QRC" /\ n < 2 -> "out" \o N(n) \o "_in" \o N(n) \o "_lo_freq"
                  [] OTHER -> "out" \o N(n) \o "_lo_freq"
Bypass(k) == {P("out" \o N(k) \o "_exp" \o N(x) \o "_config", "bypassed") : x \in 0 .. 3} \cup {P("out" \o N(k) \o "_fir_config", "bypassed")}
FilterSet(k, f) ==
  UNION {LET o == "out" \o N(k) \o "_exp" \o N(x - 1) IN
         IF f.exp[x] = <<>> THEN {P(o \o "_config", "bypassed")}
         ELSE {P(o \o "_config", "enabled"), P(o \o "_time_constant", f.exp[x][1]), P(o \o "_amplitude", f.exp[x][2])} : x \in 1 .. 4}
  \cup (IF f.fir = <<>> THEN {P("out" \o N(k) \o "_fir_config", "bypassed")}
        ELSE {P("out" \o N(k) \o "_fir_config", "enabled"), P("out" \o N(k) \o "_fir_coeffs", f.fir[1])})
ModuleSet(U, c, s) ==
  LET t == TypeOf(s) IN
  UNION {If(Gain(U, c, s, k) # {}, {P("in" \o N(k) \o "_gain", One(Gain(U, c, s, k)))}) : k \in {0, 1}}
  \cup UNION {If(OAtt(U, c, s, n) # {}, {P("out" \o N(n) \o "_att", One(OAtt(U, c, s, n)))}) : n \in 0 .. 5}
  \cup If(IAtt(U, c, s) # {}, {P("in0_att", One(IAtt(U, c, s)))})
  \cup UNION {If(OffI(U, c, s, n) # {}, {P(OffName(t, n, 0), One(OffI(U, c, s, n)))})
              \cup If(OffQ(U, c, s, n) # {}, {P(OffName(t, n, 1), One(OffQ(U, c, s, n)))}) : n \in 0 .. 1}
  \cup UNION {If(Los(U, c, s, n) # {}, {P(LoName(t, n), CHOOSE x \in Los(U, c, s, n) : TRUE)}) : n \in 0 .. 5}
  \cup If(t = "QCM", UNION {IF FiltersOn(U, c, s, k) = {} THEN Bypass(k) ELSE FilterSet(k, FilterAt(U, c, s, k)) : k \in 0 .. 3})
  \cup If(t = "QRM", UNION {Bypass(k) : k \in 0 .. 1})
\* paths of a sequencer to outputs and inputs
Wiring(i) ==
  LET t == PC[i].typ n == PC[i].n out == PC[i].io # "input" in == Measures(i) real == PC[i].kind = "real" IN
  CASE t \in {"QCM", "QRM"} ->
         {P("connect_out" \o N(k), IF ~out THEN "off" ELSE IF real THEN (IF k = n THEN "I" ELSE "off")
                                   ELSE IF k = 2 * n THEN "I" ELSE IF k = 2 * n + 1 THEN "Q" ELSE "off") : k \in 0 .. IF t = "QCM" THEN 3 ELSE 1}
         \cup If(t = "QRM", {P("connect_acq_I", IF in /\ (~real \/ n = 0) THEN "in0" ELSE "off"),
                             P("connect_acq_Q", IF in /\ (~real \/ n = 1) THEN "in1" ELSE "off")})
    [] t \in {"QCM_RF", "QRM_RF", "QRC"} ->
         {P("connect_out" \o N(k), IF out /\ k = n THEN "IQ" ELSE "off") : k \in 0 .. CASE t = "QCM_RF" -> 1 [] t = "QRM_RF" -> 0 [] OTHER -> 5}
         \cup If(t # "QCM_RF", {P("connect_acq", IF in THEN "in" \o N(n) ELSE "off")})
    [] OTHER -> {}
\* what the sequencer of a port-clock is set to
SequencerSet(c, i) ==
  LET o == c[i] IN
  {P("sync_en", "True")} \cup Wiring(i)
  \cup If(PC[i].typ # "QTM",
          LET s == IF o.so = <<>> THEN [oi |-> 0, oq |-> 0, gi |-> 8, gq |-> 8, ttl |-> <<>>] ELSE o.so[1]
          IN  {P("offset_awg_path0", s.oi), P("offset_awg_path1", s.oq), P("gain_awg_path0", s.gi), P("gain_awg_path1", s.gq)}
              \cup If(s.ttl # <<>>, {P("ttl_acq_threshold", s.ttl[1])}))
  \cup If(o.mc # <<>> /\ ~o.mc[1].sb, {P("mixer_corr_gain_ratio", o.mc[1].ratio), P("mixer_corr_phase_offset_degree", o.mc[1].phase)})
  \cup If(PC[i].typ \notin {"QTM", "QRC"} /\ PC[i].io # "input", {P("mod_en_awg", "True")})
  \cup If(PC[i].typ \in {"QRM", "QRM_RF"} /\ PC[i].io # "input", {P("demod_en_acq", "True")})
  \cup If(PC[i].typ # "QTM" /\ PC[i].io # "input", {P("nco_freq", Nco(c, i))})
\* settings of the input or output itself, time-tag module
ChannelSet(c, i) == If(PC[i].typ = "QTM", {P("mode", PC[i].io)} \cup If(c[i].dt # <<>>, {P("analog_threshold", c[i].dt[1])}))
\* calibrations: run when the frequency (of the sequencer; of the local oscillator; of either) changes
Calibrations(U, c) ==
  {[what |-> "sideband", i |-> i, slot |-> PC[i].slot, n |-> PC[i].n] : i \in {x \in U : c[x].mc # <<>> /\ c[x].mc[1].sb}}
  \cup {[what |-> CHOOSE m \in Modes(U, c, s, n) : TRUE, i |-> 0, slot |-> s, n |-> n] : <<s, n>> \in {<<a, b>> \in Slots \X (0 .. 1) : Modes(U, c, a, b) # {}}}
Overlay(f, S) == [p \in DOMAIN f \cup {x.p : x \in S} |-> IF \E x \in S : x.p = p THEN (CHOOSE x \in S : x.p = p).v ELSE f[p]]
After(U, c) == [s \in Slots |-> IF \E i \in U : PC[i].slot = s THEN Overlay(inst[s], ModuleSet(U, c, s)) ELSE inst[s]]
------------------------------------------------------------------------------
Init == ReplayInit /\ inst = [s \in Slots |-> [x \in {} |-> 0]]
\* some of the port-clocks, one option of each
Subsets == IF ~Record THEN {S \in SUBSET Used : S # {} /\ Cardinality(S) <= Most}
           ELSE LET m == Random(1 .. 4)
                    A == {i \in Used : Random(0 .. Cardinality(Used)) < Most \/ (m = 1 /\ PC[i].slot = Random(1 .. 8))}
                IN  IF A = {} THEN {{Random(Used)}} ELSE {A}
RECURSIVE Assign(_)
Assign(S) == IF S = {} THEN {[i \in {} |-> None]}
             ELSE LET i == CHOOSE x \in S : TRUE IN {[j \in S |-> IF j = i THEN o ELSE f[j]] : o \in Opts(i), f \in Assign(S \ {i})}
AsSeq(S) == LET RECURSIVE Go(_)
                Go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o Go(T \ {x})
            IN  Go(S)
Prepare ==
  \E U \in Subsets : \E V \in IF Record THEN {{i \in Used : i \in U \/ Random(1 .. 6) = 1}} ELSE {U} : \E c0 \in Pick(Assign(V)) :
    LET c == IF Open(U, c0) THEN [i \in V |-> [c0[i] EXCEPT !.mc = <<>>]] ELSE c0
        bad == Refusals(U, c) IN
    /\ inst' = IF bad = {} THEN After(U, c) ELSE inst
    /\ Step([do |-> "prepare", used |-> U, opts |-> [i \in 1 .. Len(PC) |-> IF i \in V THEN c[i] ELSE None], given |-> V, bad |-> bad,
                mods |-> IF bad # {} THEN <<>> ELSE AsSeq({[slot |-> PC[i].slot, set |-> ModuleSet(U, c, PC[i].slot)] : i \in U}),
                seqs |-> IF bad # {} THEN <<>> ELSE AsSeq({[i |-> i, set |-> SequencerSet(c, i), chan |-> ChannelSet(c, i)] : i \in U}),
                cals |-> IF bad # {} THEN {} ELSE Calibrations(U, c)])
Next == Prepare \/ Finish(inst)
Spec == Init /\ [][Next]_<<inst, h, done>>
------------------------------------------------------------------------------
\* nothing is set twice to different values, and a module whose channels are not used keeps everything
Fresh == \A s \in Slots : DOMAIN inst[s] = {}     \* these do not depend on the state: looked at once
Functional == Fresh => \A s \in Slots, U \in SUBSET Used : Cardinality(U) \in 1 .. Most =>
                \A c \in Assign(U) : Refusals(U, c) = {} =>
                  \A x \in ModuleSet(U, c, s), y \in ModuleSet(U, c, s) : x.p = y.p => x = y
\* an option that is accepted is in effect, whatever the order of the port-clocks
InEffect == Fresh => \A U \in SUBSET Used : Cardinality(U) \in 1 .. Most =>
              \A c \in Assign(U) : Refusals(U, c) = {} =>
                \A i \in U :
                  /\ c[i].oatt # <<>> => P("out" \o N(PC[i].n) \o "_att", c[i].oatt[1]) \in ModuleSet(U, c, PC[i].slot)
                  /\ c[i].iatt # <<>> => P("in0_att", c[i].iatt[1]) \in ModuleSet(U, c, PC[i].slot)
                  /\ RF(i) => P(LoName(PC[i].typ, PC[i].n), Lo(c, i)) \in ModuleSet(U, c, PC[i].slot)
\* what a module was once set to it keeps, until a schedule that uses the module sets it again
Keeps == [][\A s \in Slots : DOMAIN inst[s] \subseteq DOMAIN inst'[s]]_<<inst, h, done>>
=============================================================================
