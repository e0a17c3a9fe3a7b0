"""Source of /verif/properties.jsonl (python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})
Q = "quantify_scheduler/"
B = Q + "backends/"
QB = B + "qblox/"

p("P01", "Timing constraints resolve to the absolute times they prescribe",
  "For every schedule whose timing constraints are satisfiable, compilation gives every operation the start time that its constraints prescribe: reference point of the referenced operation plus relative time equals the chosen point of the new operation, the latest constraint wins when there are several, unspecified references default to the previous (or, under the as-late-as-possible strategy, next) operation, and the earliest operation of each (sub)schedule starts at zero. "
  "The duration of a schedule or sub-schedule is the latest end of its contents times its repetitions, a loop lasts its body times its repetitions and a conditional lasts its body plus its buffer time. "
  "A schedule that is empty, whose constraints refer to an operation that is not there or form a cycle is rejected instead of getting arbitrary times.",
  ["schedules"],
  "all schedules of nested sub-schedules, loops, conditionals and operations with any combination of reference points, relative times and reference operations, under ASAP and ALAP, with ideal and physical durations",
  "tests check a handful of fixed schedules; the interaction of default references, several constraints, negative relative times, nesting and strategy is combinatorial.",
  [Q+"compilation.py", Q+"schedules/schedule.py", Q+"operations/control_flow_library.py", B+"graph_compilation.py"],
  [("_determine_absolute_timing / _determine_absolute_timing_schedule", Q+"compilation.py"),
   ("_populate_references_graph / _validate_schedulable_references", Q+"compilation.py"),
   ("_normalize_absolute_timing", Q+"compilation.py")],
  ["Schedulable 'abs_time' and Schedule.duration of the result of SerialCompiler.compile / ScheduleCompiler"],
  [("abs_time", "resolved start of each schedulable", Q+"schedules/schedule.py")])

p("P02", "Qblox analog outputs play exactly the pulses of the schedule",
  "For every valid schedule, executing the programs compiled for a Qblox cluster makes each output produce, at every moment of each repetition, the sum of the pulses and voltage offsets that the schedule places there on that port and clock, within the resolution of the hardware, on the I and Q path and with the sign and scale the schedule asks for. "
  "Outside the pulses and offsets of the schedule the output is zero, and pulses that overlap on one port and clock add up.",
  ["schedules", "configurations"],
  "all valid schedules of library pulses (any shape, amplitude, duration, phase, overlap) on baseband and RF modules, one or several ports, clocks and modules, repeated any number of times",
  "tests compare a few generated assembly texts or settings with stored references; none executes the program, so a wrong gain, waveform index, offset, wait or latch that is consistently stored goes unnoticed.",
  [QB+"operation_handling/pulses.py", QB+"operation_handling/virtual.py", QB+"qasm_program.py", QB+"analog.py", QB+"compiler_abc.py", QB+"helpers.py", QB+"stack_pulses.py", Q+"helpers/waveforms.py", Q+"waveforms.py", Q+"operations/pulse_library.py"],
  [("GenericPulseStrategy / MarkerPulseStrategy / AwgOffsetStrategy", QB+"operation_handling"), ("SequencerCompiler.generate_qasm_program", QB+"compiler_abc.py"), ("stack_pulses / stitched pulses / long square pulses", QB+"stack_pulses.py")],
  ["sequence['program'], sequence['waveforms'] of compiled_instructions, executed on the Q1 machine of the specification"])

p("P03", "All Qblox sequencers stay in step with the schedule in every repetition",
  "In every compiled schedule all sequencers of all modules start together and play every event at its scheduled time plus one and the same constant, shifted only by the latency correction configured for its port and clock. "
  "Each repetition starts the same time after the previous one on every sequencer, whatever that sequencer plays, so that sequencers never drift apart.",
  ["schedules", "configurations"],
  "all schedules on several sequencers and modules with loops, idle times of any length, very long or short waits, any repetitions, and all latency corrections (also negative)",
  "tests look at one sequencer at a time and compare text; drift between sequencers only shows when the programs are executed next to each other.",
  [QB+"qasm_program.py", QB+"compiler_abc.py", QB+"helpers.py", QB+"timetag.py", QB+"analog.py", B+"corrections.py", B+"qblox_backend.py"],
  [("QASMProgram.auto_wait / wait_till_start_operation / wait_till_start_then_play", QB+"qasm_program.py"), ("determine_relative_latency_corrections", B+"corrections.py"), ("generate_qasm_program prologue", QB+"compiler_abc.py")],
  ["event times of the Q1 machine for every sequencer of compiled_instructions"])

p("P04", "Clock phase and frequency changes act on every later pulse of that clock",
  "On Qblox outputs every pulse and acquisition is modulated with the frequency and phase that the schedule has established for its clock at that time: phase shifts add up modulo a full turn, a phase reset clears them, and a frequency change replaces the clock frequency, at the time of the operation. "
  "A change applies to all ports that use the clock, only to them, and is in force from the time the schedule says, also inside loops and across repetitions.",
  ["schedules"],
  "all interleavings of phase shifts, phase resets, frequency changes, pulses and acquisitions on several ports and clocks, also in loops",
  "tests check that the instruction appears in one fixed program; accumulated phase, order among simultaneous operations and per-clock distribution are not executed.",
  [QB+"operation_handling/virtual.py", QB+"analog.py", Q+"operations/pulse_library.py", Q+"operations/gate_library.py", QB+"compiler_abc.py"],
  [("NcoPhaseShiftStrategy / NcoResetClockPhaseStrategy / NcoSetClockFrequencyStrategy", QB+"operation_handling/virtual.py"), ("_assign_pulse_and_acq_info_to_devices", QB+"helpers.py / qblox_backend.py")],
  ["NCO phase and frequency latched on the Q1 machine at each pulse and acquisition"])

p("P05", "A loop behaves as its body written out the stated number of times",
  "A schedule in which a body is looped produces, on every output and at every time, the same signals, phase changes and acquisitions as the schedule with that body written out as many times as the loop says, including nested loops and loops in sub-schedules. "
  "What precedes, follows or runs beside the loop happens once, at its scheduled time.",
  ["schedules"],
  "all nestings of loops, sub-schedules and operations with any repetition counts on any set of ports",
  "tests check stored assembly of a few loops; equality with the unrolled schedule is a relation between two executions.",
  [Q+"operations/control_flow_library.py", QB+"operation_handling/virtual.py", QB+"compiler_abc.py", QB+"qasm_program.py", Q+"compilation.py", QB+"register_manager.py"],
  [("LoopStrategy / ControlFlowReturnStrategy", QB+"operation_handling/virtual.py"), ("QASMProgram.loop", QB+"qasm_program.py"), ("flatten_schedule / _determine_absolute_timing loops", Q+"compilation.py")],
  ["Q1 machine execution of the looped program against the timeline of the unrolled schedule"])

p("P06", "Conditional operations play exactly when their measurement says so",
  "An operation made conditional on a measurement is played if and only if the outcome of the most recent measurement with that feedback label fires its trigger, for every combination of outcomes, on every output it uses. "
  "The time everything else happens does not depend on the outcomes, each label uses its own trigger which both the measuring and the playing sequencers agree on, and a conditional without a preceding measurement with its label is rejected. This holds whenever the schedule leaves the trigger delay of the hardware between measurement and condition.",
  ["schedules", "histories"],
  "all schedules with labelled measurements and conditional bodies, and all measurement outcomes in all repetitions",
  "tests compare stored assembly; the outcome histories (trigger or not in each repetition, per label) are never executed.",
  [QB+"conditional.py", QB+"operation_handling/virtual.py", QB+"qasm_program.py", B+"qblox_backend.py", QB+"compiler_abc.py", Q+"operations/control_flow_library.py"],
  [("QASMProgram.conditional / ConditionalManager", QB+"conditional.py"), ("_set_conditional_info_map / _insert_latch_reset", B+"qblox_backend.py")],
  ["Q1 machines of all sequencers with a nondeterministic measurement outcome and the trigger network"])

p("P07", "Each acquisition fires once, on time, into a bin of its own",
  "For every valid schedule each acquisition is started in each repetition at its scheduled time with the integration length or weights the schedule gives it, on the sequencer of its port and clock. "
  "Its result goes to a declared bin: distinct acquisitions never share a bin, with averaging all repetitions share the bin, and with appending each repetition (and each loop iteration) has a bin of its own.",
  ["schedules"],
  "all schedules with several acquisition protocols, channels, bin modes, ports, loops and repetitions",
  "tests check the declared bins of a few fixed schedules and stored programs; bin arithmetic in registers across repetitions and loops is never executed.",
  [QB+"operation_handling/acquisitions.py", QB+"qblox_acq_index_manager.py", Q+"helpers/generate_acq_channels_data.py", QB+"analog.py", QB+"timetag.py", Q+"operations/acquisition_library.py"],
  [("AcquisitionStrategyPartial and subclasses", QB+"operation_handling/acquisitions.py"), ("QbloxAcquisitionIndexManager / QbloxAcquisitionBinManager", QB+"qblox_acq_index_manager.py"), ("generate_acq_channels_data", Q+"helpers/generate_acq_channels_data.py")],
  ["acquire* events of the Q1 machine, sequence['acquisitions'], sequence['weights']"])

p("P08", "Retrieved data holds each acquisition's own result at its own coordinates",
  "After running a compiled schedule, the retrieved dataset has for each acquisition channel of the schedule an array whose value at (repetition, acquisition index) is the one the hardware stored for that acquisition in that repetition, processed as its protocol says (integration scaling, threshold, trace, counts). "
  "Indices are numbered as requested in the schedule, or in order of time when they are not given, every channel keeps its name and coordinates, and no value is dropped, duplicated or attributed to another channel.",
  ["schedules", "histories"],
  "all schedules with one or more acquisition channels, protocols, bin modes, repetitions and loops, and any data stored by the hardware",
  "tests feed a fixed answer to a few fixed schedules; the mapping from compiled bins to dataset cells is only correct if compiler and retrieval agree for every schedule.",
  [Q+"instrument_coordinator/components/qblox.py", Q+"instrument_coordinator/instrument_coordinator.py", QB+"qblox_acq_index_manager.py", Q+"helpers/generate_acq_channels_data.py", B+"types/common.py"],
  [("_QRMAcquisitionManager and siblings", Q+"instrument_coordinator/components/qblox.py"), ("retrieve_acquisition", Q+"instrument_coordinator/instrument_coordinator.py")],
  ["xarray.Dataset returned by InstrumentCoordinator.retrieve_acquisition with a dummy cluster"])

p("P09", "Compilation is a pure function of schedule and configuration",
  "Compiling does not change the schedule, operations, device or configuration it is given, and the same schedule and configuration always give the same compiled instructions, whatever was compiled before, in the same process or with the same compiler. "
  "Recompiling the schedule, or a copy of it, gives the same result as the first time.",
  ["schedules", "histories"],
  "all schedules (shared operations, gates, control flow, overlapping pulses) and all histories of earlier compilations",
  "tests compile each schedule once and check the output; mutation of shared inputs shows only on the next use.",
  [B+"graph_compilation.py", Q+"compilation.py", B+"circuit_to_device.py", B+"qblox_backend.py", QB+"stack_pulses.py", QB+"crosstalk_compensation.py", Q+"pulse_compensation.py"],
  [("QuantifyCompiler.compile keep_original_schedule", B+"graph_compilation.py"), ("copies made by each pass", Q+"compilation.py")],
  ["schedule / configuration serialised before and after compile; compiled_instructions of successive compilations"])

p("P10", "Serialisation round trips lose nothing",
  "Writing a schedule, operation, waveform parameter, device element, quantum device or configuration to JSON (or YAML file) and reading it back gives an equal object with the same parameters, timing constraints, resources and nested content, that writes the same JSON again. "
  "A schedule that has been written and read compiles to the same instructions as the original.",
  ["inputs", "schedules"],
  "all operations of the library with any parameter values, all nested schedules with loops and conditionals, all device elements and edges with any parameter values",
  "tests round-trip single default instances; fields that are dropped or altered only matter for particular values and nestings.",
  [Q+"json_utils.py", Q+"yaml_utils.py", Q+"operations/operation.py", Q+"schedules/schedule.py", Q+"resources.py", Q+"device_under_test/quantum_device.py", Q+"operations/control_flow_library.py", Q+"helpers/importers.py"],
  [("SchedulerJSONEncoder / SchedulerJSONDecoder", Q+"json_utils.py"), ("__getstate__/__setstate__", Q+"operations/operation.py")],
  ["to_json / from_json, to_json_file / from_json_file results"])

p("P11", "Gates compile to the pulses that the device configuration prescribes",
  "Every gate and measurement is replaced by the operation its device element or edge defines for it, built from the element's parameters at that moment (amplitude scaled with the rotation angle, phase from the axis, ports, clocks, durations, acquisition channel, index, protocol and bin mode), with overrides given on the gate taking precedence. "
  "Operations on several qubits use each qubit's own parameters, two-qubit gates use the edge of that parent and child, clocks get the frequency the device gives them, and a gate without a definition is rejected.",
  ["schedules", "configurations"],
  "all gates of the library on any qubits, in sub-schedules and control flow, and all device parameter values",
  "tests check single gates with default parameters; combinations of angles, overrides, elements and nesting are not covered.",
  [B+"circuit_to_device.py", Q+"device_under_test/transmon_element.py", Q+"device_under_test/composite_square_edge.py", Q+"operations/pulse_factories.py", Q+"operations/measurement_factories.py", Q+"operations/gate_library.py", Q+"device_under_test/nv_element.py", Q+"device_under_test/spin_element.py", Q+"device_under_test/spin_edge.py"],
  [("compile_circuit_to_device_with_config_validation", B+"circuit_to_device.py"), ("generate_device_config", Q+"device_under_test")],
  ["pulse_info / acquisition_info of the operations of the compiled schedule"])

p("P12", "Output frequencies add up: LO plus intermediate frequency equals the clock",
  "For every port and clock played on an RF or LO-driven output, the compiled local-oscillator frequency plus the compiled intermediate frequency equals the clock frequency (where a downconverter is configured: the downconverter frequency minus the clock frequency; where mixing is switched off, the local oscillator sits at the clock frequency), keeping whichever of the two the configuration fixed. "
  "All users of one local oscillator agree on its frequency, and configurations that fix contradictory values or leave the frequency undetermined are rejected.",
  ["configurations", "schedules"],
  "all combinations of given and omitted LO and intermediate frequencies, mixing on or off, downconverter, clocks, ports sharing a module output or an external LO",
  "tests cover fixed numeric examples per module; the sharing of an LO by several port-clocks and the resolution order are combinatorial.",
  [QB+"helpers.py", QB+"analog.py", QB+"instrument_compilers.py", QB+"compiler_container.py", B+"types/qblox.py"],
  [("determine_clock_lo_interm_freqs", QB+"helpers.py"), ("assign_frequencies", QB+"analog.py"), ("LocalOscillatorCompiler.assign_frequency", QB+"instrument_compilers.py")],
  ["LO and NCO frequencies in the compiled settings"])

p("P13", "Merging virtual Z rotations never changes what the schedule does",
  "The optimisation that merges neighbouring virtual-Z rotations leaves every qubit's accumulated frame rotation at every other operation on that qubit, and at the end, the same as in the schedule as written. "
  "It leaves the timing and identity of all other operations unchanged and does not affect other uses of the same operation object.",
  ["schedules"],
  "all gate schedules with virtual-Z rotations on several qubits, nested schedules and control flow, shared operation objects",
  "tests merge a few fixed sequences; equivalence of the accumulated phase is a property of all sequences.",
  [Q+"backends/circuit_to_device.py", Q+"backends/graph_compilation.py", Q+"operations/gate_library.py", QB+"helpers.py"],
  [("rz merging pass", Q+"backends")],
  ["the compiled schedule with the optimisation on against the schedule as written"])

p("P14", "Pulse compensation leaves zero net area on every compensated port",
  "A body wrapped in pulse compensation is followed, on each listed port, by a pulse of opposite sign such that the integral of everything played on that port during body and compensation together is zero, with an amplitude not above the given maximum and a duration on the given time grid. "
  "The body itself is unchanged, the compensation pulse of a port is a baseband pulse that starts when the last pulse of the body on that port has ended, whatever the nesting and the scheduling strategy, and bodies for which this cannot be done (voltage offsets or conditional pulses on a listed port) are rejected.",
  ["schedules"],
  "all bodies of pulses, loops and nested schedules on one or more ports, all amplitude limits and grids",
  "tests check a few fixed bodies; the net area is a sum over everything in the body including loop repetitions.",
  [Q+"pulse_compensation.py", Q+"operations/pulse_compensation_library.py"],
  [("process_compensation_pulses / _construct_compensation_pulses", Q+"pulse_compensation.py")],
  ["the pulses in the compiled schedule"])

p("P15", "Marker, digital and RF-switch outputs are on exactly when the schedule says",
  "On Qblox hardware the digital outputs of a module are raised by marker pulses for exactly their start and duration on their channel, and the default state is restored at the end. "
  "Outputs that need a switch have it on whenever the schedule plays a pulse or acquires on them, and with automatic switching the switch is off while nothing plays for longer than the ramp buffer, where a loop or conditional that plays counts as playing from its start to its end.",
  ["schedules", "configurations"],
  "all schedules of marker pulses, RF pulses, acquisitions and loops, on any module type, with and without automatic RF switching",
  "tests compare stored programs; whether the switch covers every pulse is a property of the whole timeline.",
  [QB+"operation_handling/virtual.py", QB+"operation_handling/pulses.py", QB+"auto_rf_switch.py", QB+"compiler_abc.py", QB+"analog.py", QB+"timetag.py", QB+"operations/rf_switch_toggle.py"],
  [("insert rf switch operations", QB+"auto_rf_switch.py"), ("MarkerPulseStrategy / DigitalOutputStrategy", QB+"operation_handling/pulses.py"), ("_write_pre_wait_sync / default marker", QB+"compiler_abc.py")],
  ["marker mask history on the Q1 machine"])

p("P16", "Crosstalk compensation applies the inverse matrix to every pulse",
  "With crosstalk compensation configured, what the compiled schedule sends on the lines of the matrix, multiplied with the configured crosstalk matrix, is at every moment the pulses that the schedule asks for on each line (voltage offsets aside). "
  "Timing and shape stay as they are, pulses on lines outside the matrix are unaffected, and every use of an operation is compensated once.",
  ["schedules", "configurations"],
  "all schedules of pulses on several lines, in loops and nested schedules, sharing operations, and all matrices",
  "tests check one or two pulses with one matrix.",
  [QB+"crosstalk_compensation.py", B+"types/qblox.py", B+"qblox_backend.py"],
  [("crosstalk_compensation", QB+"crosstalk_compensation.py")],
  ["analog output of the Q1 machine on every line; pulses of the compiled schedule"])

p("P17", "Compiled Q1ASM programs are always legal for the hardware",
  "Every program the Qblox backend accepts to produce can be executed: jumps go to defined unique labels, registers exist and are written before they are read and no value in use is overwritten by an unrelated one, all arguments are in the range the instruction accepts, waveforms, weights, acquisitions and bins that are used are declared with unique indices and fit in memory, real-time instructions last at least the minimum time and the program stops. "
  "Schedules which need more than the hardware has are rejected with an error rather than compiled into a wrong program (a program with too many instructions: announced with a warning).",
  ["schedules", "programs"],
  "all schedules that compile, on all module types, including extreme durations, amplitudes, loop counts, nesting depths and numbers of waveforms and acquisitions",
  "tests assemble a few stored programs with the dummy assembler which does not check registers, ranges or memory.",
  [QB+"qasm_program.py", QB+"register_manager.py", QB+"compiler_abc.py", QB+"analog.py", QB+"q1asm_instructions.py", QB+"constants.py", QB+"helpers.py"],
  [("RegisterManager", QB+"register_manager.py"), ("QASMProgram.to_instruction / expand_*", QB+"qasm_program.py"), ("_generate_awg_dict / waveform memory validation", QB+"analog.py")],
  ["sequence dictionaries of compiled_instructions executed on the Q1 machine"])

p("P18", "The instrument coordinator drives exactly the instruments of the schedule",
  "For every history of adding and removing components, preparing, starting, waiting, stopping and retrieving, the coordinator prepares exactly the components for which the schedule has instructions, each with its own instructions, starts exactly those (in the order in which they were added), waits for all components, retrieves from those of the last prepared schedule, and stops all components. "
  "Component names are unique, a schedule that needs an absent component or a start without preparation is rejected without touching others, and retrieved data are the union of the components' data, where two values for one acquisition channel and index are rejected. The generic component gives every parameter listed for it the listed value.",
  ["histories"],
  "all sequences of coordinator calls with any set of components and any set of schedules",
  "tests run a few fixed call sequences.",
  [Q+"instrument_coordinator/instrument_coordinator.py", Q+"instrument_coordinator/components/base.py", Q+"instrument_coordinator/components/generic.py"],
  [("InstrumentCoordinator.prepare/start/stop/retrieve_acquisition/wait_done", Q+"instrument_coordinator/instrument_coordinator.py")],
  ["calls received by recording components, exceptions and returned datasets"],
  [("last schedule / components", "prepared schedule and ordered component names", Q+"instrument_coordinator/instrument_coordinator.py")])

p("P19", "The quantum device registry and its configuration always agree",
  "For every history of adding, removing and reconfiguring elements and edges, the device's list of elements and edges is exactly those added and not removed, names are unique and unknown names are rejected without a change. "
  "The generated compilation and device configurations contain exactly the registered elements' operations, clocks and the edges' operations, with the parameter values at the time of generation.",
  ["histories", "configurations"],
  "all sequences of add, remove, parameter set and generate calls over any elements and edges",
  "tests add one or two elements once.",
  [Q+"device_under_test/quantum_device.py", Q+"device_under_test/device_element.py", Q+"device_under_test/edge.py"],
  [("QuantumDevice.add_element/remove_element/add_edge/get_edge/generate_device_config", Q+"device_under_test/quantum_device.py")],
  ["elements(), edges(), get_element, generate_device_config, generate_compilation_config"])

p("P20", "Measurement loops hand back every requested value in the requested order",
  "A schedule gettable compiles the schedule with the current parameter values, runs it and returns for each acquisition channel (in channel order) the real and imaginary parts or magnitude and phase of exactly the retrieved values, flattened in acquisition-index order (and repetition order when appending), as its batched, real/imaginary and channel-count settings say. "
  "The schedule is built with the values of the parameters at the time of each get, missing data is reported instead of shifted, and a failing or repeated run does not leak into the next.",
  ["histories", "inputs"],
  "all histories of parameter updates and get calls, and all datasets returned by the instruments",
  "tests use a fixed mocked dataset per protocol.",
  [Q+"gettables.py", Q+"gettables_profiled.py"],
  [("ScheduleGettable.get / initialize / process_acquired_data", Q+"gettables.py")],
  ["values returned by ScheduleGettable.get with a recording coordinator"])

p("P21", "The schedule's own tables and queries report its real content",
  "The timing table of a compiled schedule lists every pulse and acquisition once per time it is played, in order of time, with the absolute start time, duration, port and clock that the resolved timing gives it, including nested schedules and control flow; its port-clock, acquisition and duration queries and the signals drawn in its pulse diagram agree with that, and asking changes nothing. "
  "Adding, copying or renaming schedules keeps references, resources and operations consistent, and rejected additions leave the schedule unchanged.",
  ["schedules", "histories"],
  "all schedules and all sequences of schedule-building calls",
  "tests query one fixed schedule each.",
  [Q+"schedules/schedule.py", Q+"helpers/schedule.py", Q+"resources.py"],
  [("ScheduleBase.timing_table / get_used_port_clocks / add / add_resource", Q+"schedules/schedule.py")],
  ["Schedule.timing_table, Schedule.add return values, resources and schedulables"])

p("P22", "Hardware options reach exactly the channel they were configured for",
  "Every hardware option given for a port and clock (gain, attenuation, mixer correction, output offset, latency, distortion filter, thresholds, rotation) appears with that value in the compiled settings of the module input or output that is connected to that port, and nowhere else; channels without the option have the default. "
  "Port-clocks, module connections and sequencers map one to one and contradictory or unsupported options are rejected.",
  ["configurations", "schedules"],
  "all cluster layouts, connectivity graphs and hardware options",
  "tests check each option on one or two fixed configurations.",
  [B+"qblox_backend.py", QB+"analog.py", QB+"instrument_compilers.py", QB+"compiler_container.py", B+"types/qblox.py", B+"types/common.py"],
  [("extract settings per port-clock", QB+"analog.py"), ("_distribute_data / Connectivity", B+"qblox_backend.py")],
  ["module settings and sequencer settings of compiled_instructions"])

p("P23", "Zurich Instruments programs play the schedule's pulses on time",
  "For every valid schedule the sequencer programs, wave tables and settings compiled for Zurich Instruments devices play each pulse at its scheduled time, with its waveform, on the channel of its port, in each repetition, and trigger each acquisition at its time into the slot of its index. "
  "Schedules that do not fit the clock grid or waveform constraints of the device are rejected or rounded as documented rather than silently misplaced.",
  ["schedules"],
  "all schedules of pulses and acquisitions on HDAWG and UHFQA channels",
  "tests compare stored programs for a few fixed schedules.",
  [B+"zhinst_backend.py", B+"zhinst/seqc_il_generator.py", B+"zhinst/settings.py", B+"zhinst/helpers.py"],
  [("compile_backend / _compile_for_hdawg / _compile_for_uhfqa", B+"zhinst_backend.py")],
  ["seqc text and wave tables in the compiled settings, executed by the specification"])

p("P24", "Time-tag modules capture and emit digital signals exactly as scheduled",
  "On the time-tag module every digital pulse raises its output for exactly its scheduled time, and every trigger-count, time-tag or scope acquisition opens its window at its scheduled time for its scheduled duration, once per repetition, into a bin of its own, with the configured thresholds and sources; an operation conditioned on a thresholded count plays exactly when the count meets the condition. "
  "Fine time delays and windows that the hardware cannot realise are rejected.",
  ["schedules"],
  "all schedules of digital pulses, time-tag acquisitions and conditionals on several channels, loops and repetitions",
  "tests compare stored programs of single acquisitions.",
  [QB+"timetag.py", QB+"operation_handling/factory_timetag.py", QB+"operation_handling/acquisitions.py", QB+"operation_handling/pulses.py"],
  [("TimetagSequencerCompiler", QB+"timetag.py"), ("TimetagAcquisitionStrategy / ScopedTimetagAcquisitionStrategy", QB+"operation_handling/acquisitions.py"), ("DigitalPulseStrategy", QB+"operation_handling/pulses.py")],
  ["digital output and acquisition window history on the Q1 machine"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
