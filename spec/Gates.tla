------------------------------ MODULE Gates ------------------------------
(* Meaning of the gates: the pulses, acquisitions and frame changes that   *)
(* the configuration of the device prescribes for one gate.                *)
(*                                                                        *)
(* Units: times in ticks, angles in half degrees, amplitudes in 1/1000,   *)
(* frequencies in kHz. Amplitudes of rotations are compared as            *)
(* amp180 * angle (1/360000), so no division is needed.                    *)
(* dev: record element -> its parameters; edges: sequence of edges.        *)
(* An event: [t, f (what), port, clock, s (strings), v (integers)].        *)
EXTENDS SchedSem, SequencesExt, TLC

NoFreq == -1
Base == "cl0.baseband"
Ev(t, f, port, clock, s, v) == [t |-> t, f |-> f, port |-> port, clock |-> clock, s |-> s, v |-> v]
Square(t, port, clock, amp, dur, ref)  == Ev(t, "square", port, clock, <<ref>>, <<dur, amp, 0>>)
Drag(t, port, clock, g, d, phi, dur, ref) == Ev(t, "drag", port, clock, <<ref>>, <<dur, g, d, phi>>)
Hermite(t, port, clock, g, sk, phi, dur) == Ev(t, "hermite", port, clock, <<"none">>, <<dur, g, sk, phi>>)
Shift(t, clock, a)    == Ev(t, "shift", "", clock, <<>>, <<a>>)
ResetPh(t, clock)     == Ev(t, "resetphase", "", clock, <<>>, <<>>)
SetFreq(t, clock, fr) == Ev(t, "setfreq", "", clock, <<>>, <<fr>>)
Offset(t, port, clock, a) == Ev(t, "offset", port, clock, <<>>, <<a, 0>>)

\* what a gate amounts to
G(dur, nod, ev) == [err |-> "", dur |-> dur, nod |-> nod, ev |-> ev]
GErr(e)         == [err |-> e, dur |-> 0, nod |-> 0, ev |-> <<>>]

\* rotation angles are taken in (-180, 180] degrees, axis angles in [0, 360)
Wrap(a)  == LET m == a % 720 IN IF m > 360 THEN m - 720 ELSE m
Axis(a)  == a % 720

\* parameters given with the gate replace those of the configuration
Has(ov, k)      == \E i \in DOMAIN ov : ov[i][1] = k
Given(ov, k, d) == IF Has(ov, k) THEN ov[CHOOSE i \in DOMAIN ov : ov[i][1] = k][2] ELSE d

DriveClock(q, e) == CASE e.kind = "transmon" -> q \o ".01"
                      [] e.kind = "spin" -> q \o ".f_larmor"
                      [] e.kind = "nv" -> q \o ".spec"
                      [] OTHER -> ""

(* ---- which gates an element knows ---- *)
Knows(kind) == CASE kind \in {"transmon", "spin"} -> {"rxy", "rz", "h", "reset", "measure"}
                 [] kind = "nv" -> {"rxy", "reset", "charge_reset", "measure", "cr_count", "spec"}
                 [] kind = "sensor" -> {"measure"}

Rxy(q, e, theta, phi, ov) ==
  LET amp  == Given(ov, "amp180", e.amp180)
      dur  == Given(ov, "duration", e.rxy_dur)
      clk  == Given(ov, "clock", DriveClock(q, e))
      port == Given(ov, "port", e.mw)
      g    == amp * Wrap(theta)
  IN CASE e.kind = "transmon" ->
            G(dur, 0, << Drag(0, port, clk, g, Given(ov, "motzoi", e.motzoi), Axis(phi), dur, e.rxy_ref) >>)
       [] e.kind = "spin" ->
            G(dur, 0, << Drag(0, port, clk, g, 0, Axis(phi), dur, e.rxy_ref) >>)
       [] e.kind = "nv" ->
            G(dur, 0, << IF Given(ov, "pulse_shape", e.rxy_shape) = "SkewedHermitePulse"
                         THEN Hermite(0, port, clk, g, Given(ov, "skewness", e.skew), Axis(phi), dur)
                         ELSE Drag(0, port, clk, g, 0, Axis(phi), dur, "none") >>)

Rz(q, e, theta, ov) == G(0, 0, << Shift(0, Given(ov, "clock", DriveClock(q, e)), Wrap(theta)) >>)

\* first gate, then the next one
Then2(a, b) == IF a.err # "" THEN a ELSE IF b.err # "" THEN b
  ELSE G(a.dur + b.dur, 0, a.ev \o [i \in DOMAIN b.ev |-> [b.ev[i] EXCEPT !.t = @ + a.dur]])
\* H: half a turn about z, then a quarter turn about y
Hada(q, e, ov) == Then2(Rz(q, e, 360, ov), Rxy(q, e, 180, 180, ov))

ResetG(q, e, ov) ==
  IF e.kind = "nv"
  THEN LET d == Given(ov, "duration", e.reset_dur)
       IN G(d, 0, << Square(0, e.oc, q \o ".ge1", Given(ov, "amp", e.reset_amp), d, "none") >>)
  ELSE G(Given(ov, "duration", e.reset_dur), 0, <<>>)
ChargeReset(q, e) == G(e.cr_dur, 0, << Square(0, e.oc, q \o ".ionization", e.cr_amp, e.cr_dur, "none") >>)
Spec(q, e) ==
  LET ev == CASE e.spec_shape = "SquarePulse" -> Square(0, e.mw, q \o ".spec", e.spec_amp, e.spec_dur, "none")
              [] e.spec_shape = "SkewedHermitePulse" ->
                   Hermite(0, e.mw, q \o ".spec", e.spec_amp * 360, 0, 0, e.spec_dur)
              [] OTHER -> Drag(0, e.mw, q \o ".spec", e.spec_amp * 360, 0, 0, e.spec_dur, "none")
  IN G(e.spec_dur, 0, << ev >>)

(* ---- measurement ---- *)
\* m: [chan, index, protocol, bin, label, delayed], as given with the gate
Weighted == {"NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration",
             "WeightedThresholdedAcquisition"}
\* where the acquisition stores (channel, binning mode, feedback label), and index, rotation, threshold
Dispersive(q, e, m, ov) ==
  LET port  == Given(ov, "port", e.ro)
      clk   == Given(ov, "clock", q \o ".ro")
      amp   == Given(ov, "pulse_amp", e.pulse_amp)
      pdur  == Given(ov, "pulse_duration", e.pulse_dur)
      delay == Given(ov, "acq_delay", e.acq_delay)
      integ == Given(ov, "acq_duration", e.integ)
      prot  == IF m.protocol = "" THEN "SSBIntegrationComplex" ELSE m.protocol
      bin   == IF m.bin = "" THEN "average" ELSE m.bin
      chan  == IF m.chan = "" THEN e.chan ELSE m.chan
      rot   == Given(ov, "acq_rotation", e.rot)
      thr   == Given(ov, "acq_threshold", e.thr)
      freq  == Given(ov, "freq", NoFreq)
      rph   == Given(ov, "reset_clock_phase", e.reset_ph)
      npts  == Given(ov, "num_points", e.npts)
      ref   == e.ro_ref
      wdur  == Len(e.wa) * e.wstep
      gated == e.kind \in {"spin", "sensor"}
      gate(d, r) == IF gated THEN << Square(0, e.gate, Base, e.gate_amp, d, r) >> ELSE <<>>
      head  == (IF rph = 1 THEN << ResetPh(0, clk) >> ELSE <<>>)
               \o << Square(0, port, clk, amp, pdur, ref) >> \o gate(pdur, ref)
      inner ==
        CASE prot = "SSBIntegrationComplex" ->
               G(Max2(pdur, delay + integ), 0,
                 head \o << Ev(delay, prot, port, clk, <<chan, bin>>, <<integ, m.index>>) >>)
          [] prot = "Trace" ->
               G(Max2(pdur, delay + integ), 0,
                 head \o << Ev(delay, prot, port, clk, <<chan, "average">>, <<integ, m.index>>) >>)
          [] prot = "ThresholdedAcquisition" ->
               G(Max2(pdur, delay + integ), 0,
                 head \o << Ev(delay, prot, port, clk, <<chan, bin, m.label>>, <<integ, m.index, rot, thr>>) >>)
          [] prot \in Weighted ->
               G(Max2(pdur, delay + wdur), 0,
                      head \o << IF prot = "WeightedThresholdedAcquisition"
                                 THEN Ev(delay, prot, port, clk, <<chan, bin, m.label>>,
                                         <<wdur, m.index, thr>> \o e.wa \o e.wb)
                                 ELSE Ev(delay, prot, port, clk, <<chan, bin>>,
                                         <<wdur, m.index>> \o e.wa \o e.wb) >>)
          [] prot = "LongTimeTrace" ->
               IF bin # "append" THEN GErr("trace-not-appending")
               ELSE LET gdur == npts * integ
                        pts == [k \in 1..npts |->
                          << ResetPh(delay + (k - 1) * integ, clk),
                             Ev(delay + (k - 1) * integ, "SSBIntegrationComplex", port, clk,
                                <<chan, bin>>, <<integ, m.index>>) >>]
                    IN G(Max2(IF gated THEN gdur ELSE 0, delay + gdur + e.tail), 0,
                         << Offset(0, port, clk, amp) >> \o gate(gdur, "none") \o FlattenSeq(pts)
                         \o << Offset(delay + gdur, port, clk, 0) >>)
          [] OTHER -> GErr("protocol")
  IN IF inner.err # "" THEN inner
     ELSE [inner EXCEPT
             !.nod = IF m.delayed = 1 THEN 0 ELSE -delay,
             !.ev = IF freq = NoFreq THEN @
                    ELSE << SetFreq(0, clk, freq) >> \o @ \o << SetFreq(inner.dur, clk, NoFreq) >>]

\* one or two laser pulses and a photon counter; a negative delay moves the pulses instead
Optical(q, e, pulses, dur, delay, chan0, m, src, tref) ==
  LET tp   == Max2(0, -delay)
      ta   == Max2(0, delay)
      prot == IF m.protocol = "" THEN "TriggerCount" ELSE m.protocol
      bin  == IF m.bin = "" THEN "append" ELSE m.bin
      chan == IF m.chan = "" THEN chan0 ELSE m.chan
      s    == CASE prot = "Timetag" -> << chan, bin, src, tref >>
                [] prot = "TimetagTrace" -> << chan, bin, tref >>
                [] OTHER -> << chan, bin >>
      evs  == [i \in DOMAIN pulses |->
                 Square(tp, e.oc, q \o pulses[i].clock, pulses[i].amp, pulses[i].dur, "none")]
      ends == {tp + pulses[i].dur : i \in DOMAIN pulses} \cup {ta + dur}
  IN IF prot \notin {"TriggerCount", "Trace", "Timetag", "TimetagTrace"} THEN GErr("protocol")
     ELSE G(MaxOf(ends), 0, evs \o << Ev(ta, prot, e.or, q \o ".ge0", s, << dur, m.index >>) >>)

Measure1(q, e, m, ov) ==
  IF e.kind = "nv"
  THEN Optical(q, e, << [clock |-> ".ge0", amp |-> e.pulse_amp, dur |-> e.pulse_dur] >>,
               e.integ, e.acq_delay, e.chan, m, e.tsrc, e.tref)
  ELSE Dispersive(q, e, m, ov)
CRCount1(q, e, m) ==
  Optical(q, e, << [clock |-> ".ge0", amp |-> e.cc_ro_amp, dur |-> e.cc_ro_dur],
                   [clock |-> ".ge1", amp |-> e.cc_sp_amp, dur |-> e.cc_sp_dur] >>,
          e.cc_integ, e.cc_delay, e.cc_chan, m, "first", "start")

(* ---- two-element gates ---- *)
EdgesOf(edges, p, c) == {i \in DOMAIN edges : edges[i].parent = p /\ edges[i].child = c}
CZ(dev, edges, p, c, ov) ==
  LET direct == EdgesOf(edges, p, c)
      use == IF direct # {} THEN direct ELSE EdgesOf(edges, c, p)
  IN IF use = {} THEN GErr("edge")
     ELSE LET ed == edges[CHOOSE i \in use : TRUE]
              d  == Given(ov, "square_duration", ed.dur)
              clk(q) == DriveClock(q, dev[q])
          IN G(d, 0, << Square(0, ed.port, Base, Given(ov, "square_amp", ed.amp), d, "none"),
                        Shift(0, clk(ed.parent), Given(ov, "virt_z_parent_qubit_phase", ed.pph)),
                        Shift(0, clk(ed.child), Given(ov, "virt_z_child_qubit_phase", ed.cph)) >>)

(* ---- several elements at once: all start together ---- *)
Together(gs) ==
  LET bad == {i \in DOMAIN gs : gs[i].err # ""}
      nods == {gs[i].nod : i \in DOMAIN gs}
  IN IF bad # {} THEN gs[CHOOSE i \in bad : TRUE]
     ELSE G(MaxOf({gs[i].dur : i \in DOMAIN gs}), MinOf(nods), FlattenSeq([i \in DOMAIN gs |-> gs[i].ev]))

\* g: [op, q (elements), theta, phi, m, idx (per element), ov, ev, dur]
Gate(dev, edges, g) ==
  IF g.op = "raw" THEN G(g.dur, 0, g.ev)
  ELSE IF g.op = "cz"
    THEN IF \E i \in DOMAIN g.q : g.q[i] \notin DOMAIN dev THEN GErr("element")
         ELSE CZ(dev, edges, g.q[1], g.q[2], g.ov)
  ELSE IF \E i \in DOMAIN g.q : g.q[i] \notin DOMAIN dev THEN GErr("element")
  ELSE IF \E i \in DOMAIN g.q : g.op \notin Knows(dev[g.q[i]].kind) THEN GErr("operation")
  ELSE Together([i \in DOMAIN g.q |->
         LET q == g.q[i]  e == dev[q]  m == [g.m EXCEPT !.index = g.idx[i]]
         IN CASE g.op = "rxy" -> Rxy(q, e, g.theta, g.phi, g.ov)
              [] g.op = "rz" -> Rz(q, e, g.theta, g.ov)
              [] g.op = "h" -> Hada(q, e, g.ov)
              [] g.op = "reset" -> ResetG(q, e, g.ov)
              [] g.op = "charge_reset" -> ChargeReset(q, e)
              [] g.op = "spec" -> Spec(q, e)
              [] g.op = "measure" -> Measure1(q, e, m, g.ov)
              [] g.op = "cr_count" -> CRCount1(q, e, m)])
=============================================================================
