------------------------------ MODULE Device ------------------------------
(* The quantum device: a registry of elements and edges, their parameters,  *)
(* and the configuration generated from them.                               *)
(* Instruments of every kind exist beforehand (names below); registered are *)
(* those in els/eds. par[i][p] is the index of the value parameter p of     *)
(* instrument i has (the replayer knows the values).                        *)
EXTENDS Replay
CONSTANT Full       \* all parameters (replay), or a few (exhaustive)
VARIABLES els, eds, par, strat, keep, reps
vars == <<els, eds, par, strat, keep, reps>>
P(x) == <<"p", x>>      \* a parameter of the instrument
N(x) == <<"n", x>>      \* a name made of the name of the instrument
C(x) == <<"c", x>>      \* a constant
K(k, s) == <<k, <<s>>>>
L(k, s) == <<k \o "[]", s>>
Op(o, f, kw, info) == [o |-> o, f |-> f, kw |-> kw, info |-> info]
MeasInfo == <<"acq_channel_override", "coords", "acq_index", "bin_mode", "acq_protocol">>
Fb == <<"feedback_trigger_label">>
Disp == <<K("port", P("ports.readout")), K("clock", N(".ro")), K("pulse_type", P("measure.pulse_type")),
          K("pulse_amp", P("measure.pulse_amp")), K("pulse_duration", P("measure.pulse_duration")),
          K("acq_delay", P("measure.acq_delay")), K("acq_duration", P("measure.integration_time")),
          K("acq_channel", P("measure.acq_channel")), K("acq_protocol_default", C("SSBIntegrationComplex")),
          K("reset_clock_phase", P("measure.reset_clock_phase")),
          K("reference_magnitude", P("measure.reference_magnitude")),
          K("acq_weights_a", P("measure.acq_weights_a")), K("acq_weights_b", P("measure.acq_weights_b")),
          K("acq_weights_sampling_rate", P("measure.acq_weights_sampling_rate")),
          K("acq_rotation", P("measure.acq_rotation")), K("acq_threshold", P("measure.acq_threshold")),
          K("num_points", P("measure.num_points")), K("freq", C("None"))>>
Spin == <<K("gate_port", P("ports.gate")), K("gate_pulse_amp", P("measure.gate_pulse_amp"))>>
Comp(port, clock) == Op("pulse_compensation", "None",
  <<K("port", port), K("clock", clock), K("max_compensation_amp", P("pulse_compensation.max_compensation_amp")),
    K("time_grid", P("pulse_compensation.time_grid")), K("sampling_rate", P("pulse_compensation.sampling_rate"))>>, <<>>)
Idle == Op("reset", "IdlePulse", <<K("duration", P("reset.duration"))>>, <<>>)
Rz(c) == Op("Rz", "phase_shift", <<K("clock", N(c))>>, <<"theta">>)
Had == Op("H", "hadamard_as_y90z", <<K("qubit", N(""))>>, <<>>)
Rot(f, c, extra) == Op("Rxy", f,
  <<K("amp180", P("rxy.amp180")), K("port", P("ports.microwave")), K("clock", N(c)), K("duration", P("rxy.duration"))>> \o extra,
  <<"theta", "phi">>)
Ref == K("reference_magnitude", P("rxy.reference_magnitude"))
Optical(n, amps, durs, clks, m, extra) == Op(n, "optical_measurement",
  <<L("pulse_amplitudes", amps), L("pulse_durations", durs), L("pulse_clocks", clks),
    L("pulse_ports", [i \in DOMAIN amps |-> P("ports.optical_control")]),
    K("acq_duration", P(m \o ".acq_duration")), K("acq_delay", P(m \o ".acq_delay")), K("acq_channel", P(m \o ".acq_channel")),
    K("acq_port", P("ports.optical_readout")), K("acq_clock", N(".ge0")), K("pulse_type", C("SquarePulse")),
    K("acq_protocol_default", C("TriggerCount"))>> \o extra, MeasInfo)
OpsOf ==
  [transmon |-> <<Idle, Rot("rxy_drag_pulse", ".01", <<K("motzoi", P("rxy.motzoi")), Ref>>), Rz(".01"), Had,
                  Comp(P("ports.microwave"), N(".01")), Op("measure", "dispersive_measurement_transmon", Disp, MeasInfo \o Fb)>>,
   spin |-> <<Idle, Rot("rxy_gauss_pulse", ".f_larmor", <<Ref>>), Rz(".f_larmor"), Had,
              Comp(P("ports.microwave"), N(".f_larmor")), Op("measure", "dispersive_measurement_spin", Disp \o Spin, MeasInfo \o Fb)>>,
   sensor |-> <<Comp(P("ports.gate"), C("cl0.baseband")), Op("measure", "dispersive_measurement_spin", Disp \o Spin, MeasInfo \o Fb)>>,
   nv |-> <<Op("spectroscopy_operation", "nv_spec_pulse_mw",
               <<K("duration", P("spectroscopy_operation.duration")), K("amplitude", P("spectroscopy_operation.amplitude")),
                 K("port", P("ports.microwave")), K("clock", N(".spec")), K("pulse_shape", P("spectroscopy_operation.pulse_shape"))>>, <<>>),
            Op("reset", "SquarePulse", <<K("duration", P("reset.duration")), K("amp", P("reset.amplitude")),
               K("port", P("ports.optical_control")), K("clock", N(".ge1"))>>, <<>>),
            Op("charge_reset", "SquarePulse", <<K("duration", P("charge_reset.duration")), K("amp", P("charge_reset.amplitude")),
               K("port", P("ports.optical_control")), K("clock", N(".ionization"))>>, <<>>),
            Optical("measure", <<P("measure.pulse_amplitude")>>, <<P("measure.pulse_duration")>>, <<N(".ge0")>>, "measure",
                    <<K("acq_time_source", P("measure.time_source")), K("acq_time_ref", P("measure.time_ref"))>>),
            Optical("cr_count", <<P("cr_count.readout_pulse_amplitude"), P("cr_count.spinpump_pulse_amplitude")>>,
                    <<P("cr_count.readout_pulse_duration"), P("cr_count.spinpump_pulse_duration")>>, <<N(".ge0"), N(".ge1")>>, "cr_count", <<>>),
            Rot("rxy_pulse", ".spec", <<K("skewness", P("rxy.skewness")), K("pulse_shape", P("rxy.pulse_shape"))>>),
            Comp(P("ports.microwave"), N(".spec"))>>]
ClocksOf ==
  [transmon |-> <<<<".01", "clock_freqs.f01">>, <<".12", "clock_freqs.f12">>, <<".ro", "clock_freqs.readout">>>>,
   spin |-> <<<<".f_larmor", "clock_freqs.f_larmor">>, <<".ro", "clock_freqs.readout">>>>,
   sensor |-> <<<<".ro", "clock_freqs.readout">>>>,
   nv |-> <<<<".f01", "clock_freqs.f01">>, <<".spec", "clock_freqs.spec">>, <<".ge0", "clock_freqs.ge0">>,
            <<".ge1", "clock_freqs.ge1">>, <<".ionization", "clock_freqs.ionization">>>>]
\* operations of an edge; "parent" is a parameter of the parent element
Cz(port, c) == Op("CZ", "composite_square_pulse",
  <<K("square_port", port), K("square_clock", C("cl0.baseband")), K("square_amp", P("cz.square_amp")),
    K("square_duration", P("cz.square_duration")), K("virt_z_parent_qubit_phase", P("cz.parent")),
    K("virt_z_child_qubit_phase", P("cz.child")), K("virt_z_parent_qubit_clock", <<"pn", c>>),
    K("virt_z_child_qubit_clock", <<"cn", c>>)>>, <<>>)
EdgeOps == [square |-> <<Cz(<<"parent", "ports.flux">>, ".01")>>,
            spin |-> <<Cz(P("ports.gate"), ".f_larmor"), Op("SpinInit", "non_implemented_pulse", <<>>, <<>>),
                       Op("CNOT", "non_implemented_pulse", <<>>, <<>>)>>]
ElemType == [q0 |-> "transmon", q1 |-> "transmon", s0 |-> "spin", s1 |-> "spin", c0 |-> "sensor", n0 |-> "nv"]
EdgeOf == [q0_q1 |-> [t |-> "square", p |-> "q0", c |-> "q1"], q1_q0 |-> [t |-> "square", p |-> "q1", c |-> "q0"],
           s0_s1 |-> [t |-> "spin", p |-> "s0", c |-> "s1"]]
Elems == IF Full THEN DOMAIN ElemType ELSE {"q0", "q1"}
Edges == IF Full THEN DOMAIN EdgeOf ELSE {"q0_q1"}
Sources(ops) == UNION {UNION {{ops[i].kw[j][2][k] : k \in DOMAIN ops[i].kw[j][2]} : j \in DOMAIN ops[i].kw} : i \in DOMAIN ops}
ParOf(ops) == {s[2] : s \in {x \in Sources(ops) : x[1] = "p"}}
Extra == [transmon |-> {"measure.acq_weight_type", "ports.flux"}, spin |-> {"measure.acq_weight_type"},
          sensor |-> {"measure.acq_weight_type"}, nv |-> {}]
AllPars == [i \in DOMAIN ElemType \cup DOMAIN EdgeOf |->
  IF i \in DOMAIN ElemType
  THEN ParOf(OpsOf[ElemType[i]]) \cup {ClocksOf[ElemType[i]][k][2] : k \in DOMAIN ClocksOf[ElemType[i]]} \cup Extra[ElemType[i]]
  ELSE ParOf(EdgeOps[EdgeOf[i].t])]
Pars(i) == IF Full THEN AllPars[i] ELSE AllPars[i] \cap {"ports.flux", "clock_freqs.f01", "cz.square_amp"}
Vals == IF Full THEN 0 .. 3 ELSE {0, 1}
Fresh(i) == [p \in Pars(i) |-> 0]
Init == /\ els = <<>> /\ eds = <<>> /\ par = [i \in Elems \cup Edges |-> Fresh(i)]
        /\ strat = "asap" /\ keep = TRUE /\ reps = 1 /\ ReplayInit
First == IF Len(h) = 0 THEN [i \in Elems \cup Edges |-> Pars(i)] ELSE [none |-> 0]
Do(what, arg, res) == Step([pars |-> First, do |-> what, arg |-> arg, res |-> res, els |-> els', eds |-> eds', reps |-> reps'])
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
AddElement(e) == /\ els' = (IF e \in ToSet(els) THEN els ELSE Append(els, e)) /\ UNCHANGED <<eds, par, strat, keep, reps>>
                 /\ Do("add_element", <<e>>, IF e \in ToSet(els) THEN "ValueError" ELSE "ok")
AddEdge(e) == /\ eds' = (IF e \in ToSet(eds) THEN eds ELSE Append(eds, e)) /\ UNCHANGED <<els, par, strat, keep, reps>>
              /\ Do("add_edge", <<e>>, IF e \in ToSet(eds) THEN "ValueError" ELSE "ok")
AddWrong(w, i) == /\ UNCHANGED vars /\ Do(w, <<i>>, "TypeError")
RemoveElement(e) == /\ els' = Without(els, e) /\ UNCHANGED <<eds, par, strat, keep, reps>>
                    /\ Do("remove_element", <<e>>, IF e \in ToSet(els) THEN "ok" ELSE "ValueError")
RemoveEdge(e) == /\ eds' = Without(eds, e) /\ UNCHANGED <<els, par, strat, keep, reps>>
                 /\ Do("remove_edge", <<e>>, IF e \in ToSet(eds) THEN "ok" ELSE "ValueError")
Get(w, i, s) == UNCHANGED vars /\ Do(w, <<i>>, IF i \in ToSet(s) THEN "ok" ELSE "KeyError")
SetPar(i, p, v) == /\ par' = [par EXCEPT ![i][p] = v] /\ UNCHANGED <<els, eds, strat, keep, reps>> /\ Do("set", <<i, p, v>>, "ok")
SetStrat(s) == strat' = s /\ UNCHANGED <<els, eds, par, keep, reps>> /\ Do("strategy", <<s>>, "ok")
SetKeep(b) == keep' = b /\ UNCHANGED <<els, eds, par, strat, reps>> /\ Do("keep", <<b>>, "ok")
SetReps(r) == reps' = r /\ UNCHANGED <<els, eds, par, strat, keep>> /\ Do("reps", <<r>>, "ok")
\* an element that is not registered is closed and made anew, with the values at construction
Renew(i) == /\ i \notin ToSet(els) \cup ToSet(eds) /\ par' = [par EXCEPT ![i] = Fresh(i)] /\ UNCHANGED <<els, eds, strat, keep, reps>>
            /\ Do("renew", <<i>>, "ok")
Value(i, p) == IF p \in DOMAIN par[i] THEN par[i][p] ELSE 0
\* a source, resolved: a value index of a parameter, or a name
Src(i, s) == CASE s[1] = "p" -> <<"v", s[2], Value(i, s[2])>>
               [] s[1] = "n" -> <<"s", i \o s[2]>>
               [] s[1] = "c" -> <<"s", s[2]>>
               [] s[1] = "parent" -> <<"v", s[2], Value(EdgeOf[i].p, s[2])>>
               [] s[1] = "pn" -> <<"s", EdgeOf[i].p \o s[2]>>
               [] s[1] = "cn" -> <<"s", EdgeOf[i].c \o s[2]>>
Conf(i, ops) == [k \in DOMAIN ops |-> [o |-> ops[k].o, f |-> ops[k].f, info |-> ops[k].info,
  kw |-> [j \in DOMAIN ops[k].kw |-> <<ops[k].kw[j][1], [n \in DOMAIN ops[k].kw[j][2] |-> Src(i, ops[k].kw[j][2][n])]>>]]]
Config ==
  [elements |-> [k \in DOMAIN els |-> <<els[k], Conf(els[k], OpsOf[ElemType[els[k]]])>>],
   edges |-> [k \in DOMAIN eds |-> <<eds[k], Conf(eds[k], EdgeOps[EdgeOf[eds[k]].t])>>],
   clocks |-> [k \in DOMAIN els |-> LET c == ClocksOf[ElemType[els[k]]] IN
                 [j \in DOMAIN c |-> <<els[k] \o c[j][1], c[j][2], Value(els[k], c[j][2])>>]],
   strategy |-> strat, keep |-> keep]
Generate == UNCHANGED vars /\ Step([pars |-> First, do |-> "generate", arg |-> <<>>, res |-> "ok", els |-> els, eds |-> eds, reps |-> reps, cfg |-> Config])
\* the device is written as JSON, everything is closed and the device read back;
\* instruments that are not registered are made anew
Reload == LET ok == els # <<>> \/ eds # <<>> IN
  /\ par' = (IF ok THEN [i \in DOMAIN par |-> IF i \in ToSet(els) \cup ToSet(eds) THEN par[i] ELSE Fresh(i)] ELSE par)
  /\ UNCHANGED <<els, eds, strat, keep, reps>>
  /\ Do("reload", <<>>, IF ok THEN "ok" ELSE "RuntimeError")
Next ==
  \/ \E e \in Pick(Elems) : AddElement(e) \/ RemoveElement(e)
  \/ \E e \in Pick(Edges) : AddEdge(e) \/ RemoveEdge(e)
  \/ \E e \in Pick(Elems) : Seldom /\ (Get("get_element", e, els) \/ AddWrong("add_edge_wrong", e) \/ Renew(e))
  \/ \E e \in Pick(Edges) : Seldom /\ (Get("get_edge", e, eds) \/ AddWrong("add_element_wrong", e) \/ Renew(e))
  \/ \E i \in Pick(Elems \cup Edges) : \E p \in Pick(Pars(i)), v \in Pick(Vals) : SetPar(i, p, v)
  \/ (Record /\ els # <<>> /\ \E i \in Pick(ToSet(els) \cup ToSet(eds)) : \E p \in Pick(Pars(i)), v \in Pick(Vals) : SetPar(i, p, v))
  \/ \E s \in Pick({"asap", "alap"}) : Seldom /\ SetStrat(s)
  \/ \E b \in Pick(BOOLEAN) : Seldom /\ SetKeep(b)
  \/ \E r \in Pick({1, 50}) : Seldom /\ SetReps(r)
  \/ Generate
  \/ Seldom /\ Reload
  \/ Finish(vars)
Spec2 == Init /\ [][Next]_<<vars, h, done>>
NoDup(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Unique == NoDup(els) /\ NoDup(eds)
\* the configuration has an entry for each registered instrument and no other
Exact == /\ {Config.elements[k][1] : k \in DOMAIN els} = ToSet(els)
         /\ {Config.edges[k][1] : k \in DOMAIN eds} = ToSet(eds)
         /\ \A k \in DOMAIN els : \A j \in DOMAIN Config.clocks[k] :
              Config.clocks[k][j][3] = Value(els[k], Config.clocks[k][j][2])
=============================================================================
