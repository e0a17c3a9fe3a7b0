From 752d1d3911c58360261b309c40a27fb437bb97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 01/48] fix: resolve the timing of a schedule independently of
 an earlier resolution

The start times left by an earlier resolution acted as a lower bound, so a schedule
that is the body of two loops (and so is resolved twice) got wrong start times when
its operations start before their origin.
---
 quantify_scheduler/compilation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 038f029..a6eb1f6 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -173,10 +173,12 @@ def _determine_absolute_timing_schedule(
         if i == 0:
             schedulable.data["abs_time"] = 0.0
         elif scheduling_strategy == SchedulingStrategy.ASAP:
-            for timing_constraint in timing_constraints:
-                abs_time = _get_start_time(schedule, timing_constraint, operation, time_unit)
-                if "abs_time" not in schedulable or abs_time > schedulable["abs_time"]:
-                    schedulable.data["abs_time"] = abs_time
+            # Any earlier value is ignored: the body of several control flow operations
+            # may be one and the same schedule, which is then resolved more than once.
+            schedulable.data["abs_time"] = max(
+                _get_start_time(schedule, timing_constraint, operation, time_unit)
+                for timing_constraint in timing_constraints
+            )
         else:
             schedulable.data["abs_time"] = _get_start_time(
                 schedule, timing_constraints[0], operation, time_unit
-- 
2.43.0


From 59c5e0381a5bd1f117bda79d7069615ac709c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 02/48] fix: play all steps of a staircase that goes down

---
 quantify_scheduler/waveforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index da5d7ab..1bdac88 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -88,10 +88,10 @@ def staircase(
         duration = float(t[-1] - t[0])
 
     amp_step = (final_amp - start_amp) / (num_steps - 1)
-    waveform = np.floor(t * (num_steps / duration)) * amp_step + start_amp
-    # Replace out of range values with start_amp or final_amp.
+    # Times out of range belong to the first or the last step.
     # In most cases that would only happen when `duration in t`
-    return np.minimum(np.maximum(waveform, start_amp), final_amp)
+    step = np.clip(np.floor(t * (num_steps / duration)), 0, num_steps - 1)
+    return step * amp_step + start_amp
 
 
 def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
-- 
2.43.0


From 6df6007e3aa959a0ade1129fe9de8ba61675eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 03/48] fix: stack overlapping pulses in the body of control
 flow operations

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 214740d..e2bf99d 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -17,6 +17,7 @@ from quantify_scheduler.backends.qblox.helpers import is_square_pulse, to_grid_t
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
     SimpleNumericalPulse,
 )
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 if TYPE_CHECKING:
@@ -74,6 +75,14 @@ def stack_pulses(schedule: Schedule, config) -> Schedule:  # noqa: D417, ARG001,
     return schedule
 
 
+def _stack_pulses_in_control_flow_body(operation: ControlFlowOperation) -> None:
+    """Stack the pulses in the body of (possibly nested) control flow operations."""
+    if isinstance(operation.body, Schedule):
+        operation.body = stack_pulses(operation.body, {})
+    elif isinstance(operation.body, ControlFlowOperation):
+        _stack_pulses_in_control_flow_body(operation.body)
+
+
 def _construct_pulses_by_port_clock(
     schedule: Schedule,
 ) -> defaultdict[str, list[PulseParameters]]:
@@ -84,7 +93,10 @@ def _construct_pulses_by_port_clock(
         if isinstance(op, Schedule):
             schedule.operations[schedulable["operation_id"]] = stack_pulses(op, {})
             continue
-        elif not op.valid_pulse or not op.data.get("pulse_info"):
+        if isinstance(op, ControlFlowOperation):
+            _stack_pulses_in_control_flow_body(op)
+            continue
+        if not op.valid_pulse or not op.data.get("pulse_info"):
             continue
 
         pulse_info = next(iter(op.data["pulse_info"]))
-- 
2.43.0


From e0e36354eed2d1d3774ed6a749c85bac69c12b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 04/48] fix: update the duration of a stacked square pulse

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index e2bf99d..6af626c 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -267,6 +267,7 @@ def _stack_square_pulses(
                     * (1 / constants.SAMPLING_RATE),
                     9,
                 )
+                combined_pulse._update()
             else:
                 combined_pulse.data["pulse_info"][0]["amp"] += pulse_info["amp"]
     _create_schedulable(schedule, interval.start_time, combined_pulse)
-- 
2.43.0


From 52527fd58b07ea4afc41ac35393c72d61bc477e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 05/48] fix: repeat operations on a clock, and accept idle
 time, in the body of control flow operations

---
 quantify_scheduler/backends/qblox/helpers.py | 37 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 60dc625..06a0995 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -33,6 +33,7 @@ from quantify_scheduler.operations.control_flow_library import (
 )
 from quantify_scheduler.operations.operation import Operation
 from quantify_scheduler.operations.pulse_library import WindowOperation
+from quantify_scheduler.resources import BasebandClockResource
 from quantify_scheduler.schedules.schedule import Schedule, ScheduleBase
 
 if TYPE_CHECKING:
@@ -630,12 +631,36 @@ class ConditionalBegin(Operation):
         return self._get_signature(self.data["control_flow_info"])
 
 
+def _get_control_flow_port_clocks(
+    operation: Operation | Schedule,
+) -> set[tuple[str | None, str]]:
+    """
+    Get all (port, clock) combinations the body of a control flow operation acts on.
+
+    Operations that act on a clock (e.g. a phase shift) are included with port ``None``,
+    they act on all sequencers that use that clock.
+    """
+    if isinstance(operation, ScheduleBase):
+        port_clocks = set()
+        for inner_operation in operation.operations.values():
+            port_clocks |= _get_control_flow_port_clocks(inner_operation)
+        return port_clocks
+    if isinstance(operation, ControlFlowOperation):
+        return _get_control_flow_port_clocks(operation.body)
+    return operation.get_used_port_clocks() | {
+        (None, pulse_info["clock"])
+        for pulse_info in operation["pulse_info"]
+        if pulse_info["port"] is None
+        and pulse_info["clock"] not in (None, BasebandClockResource.IDENTITY)
+    }
+
+
 def _get_control_flow_begin(
     control_flow_operation: ControlFlowOperation,
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
+    port_clocks = _get_control_flow_port_clocks(control_flow_operation)
     if isinstance(control_flow_operation, LoopOperation):
         begin_operation: Operation = LoopBegin(
             control_flow_operation.data["control_flow_info"]["repetitions"],
@@ -705,7 +730,7 @@ def _get_control_flow_end(
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
+    port_clocks = _get_control_flow_port_clocks(control_flow_operation)
     end_operation: Operation = _ControlFlowReturn()
     end_operation["pulse_info"] = [
         {
@@ -740,6 +765,9 @@ def _get_list_of_operations_for_op_info_creation(
                 new_full_schedulable_label,
             )
     elif isinstance(operation, ControlFlowOperation):
+        if not _get_control_flow_port_clocks(operation):
+            # Nothing is played in the body, it only takes time.
+            return
         accumulator.append(
             (
                 to_grid_time(time_offset) * 1e-9,
@@ -778,6 +806,9 @@ def _assign_pulse_info_to_devices(
     operation: Operation,
     operation_start_time: float,
 ) -> None:
+    is_control_flow = isinstance(operation, (LoopBegin, ConditionalBegin, _ControlFlowReturn))
+    # The sequencers that get a control flow instruction of their own.
+    port_clocks = {(info["port"], info["clock"]) for info in operation.data["pulse_info"]}
     for pulse_data in operation.data["pulse_info"]:
         if "t0" in pulse_data:
             pulse_start_time = operation_start_time + pulse_data["t0"]
@@ -815,6 +846,8 @@ def _assign_pulse_info_to_devices(
             # Distribute clock operations to all sequencers utilizing that clock
             for map_portclock, device_name in portclock_mapping.items():
                 map_port, map_clock = map_portclock.split("-")
+                if is_control_flow and (map_port, map_clock) in port_clocks:
+                    continue
                 if (combined_data.name == "LatchReset") or map_clock == clock:
                     device_compilers[device_name].add_op_info(
                         port=map_port, clock=map_clock, op_info=combined_data
-- 
2.43.0


From 6bda293f3378727e9a0d3151dd80d23c03e5e3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 06/48] fix: change the frequency of a clock from the frequency
 of each sequencer that uses it

---
 quantify_scheduler/backends/qblox/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 06a0995..4991b67 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -849,8 +849,11 @@ def _assign_pulse_info_to_devices(
                 if is_control_flow and (map_port, map_clock) in port_clocks:
                     continue
                 if (combined_data.name == "LatchReset") or map_clock == clock:
+                    # Every sequencer adds its own information (e.g. its frequency).
                     device_compilers[device_name].add_op_info(
-                        port=map_port, clock=map_clock, op_info=combined_data
+                        port=map_port,
+                        clock=map_clock,
+                        op_info=dataclasses.replace(combined_data, data=copy(pulse_data)),
                     )
         else:
             if portclock not in portclock_mapping:
-- 
2.43.0


From 39efc8ce7c309d4f1b959e8cefdefa863cca3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 07/48] fix: make both branches of conditional playback take
 the same time

---
 .../backends/qblox/compiler_abc.py            |  1 -
 .../backends/qblox/conditional.py             | 32 +++++++++++++-----
 .../backends/qblox/qasm_program.py            | 33 +++++++++++++++----
 3 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 9c89e20..8391b1c 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -724,7 +724,6 @@ class SequencerCompiler(ABC):
             elif isinstance(operation, ControlFlowReturnStrategy):
                 return self.ParseOperationStatus.EXITED_CONTROL_FLOW
             else:
-                qasm.conditional_manager.update(operation)
                 self._insert_qasm(operation, qasm)
 
         return self.ParseOperationStatus.EXITED_CONTROL_FLOW
diff --git a/quantify_scheduler/backends/qblox/conditional.py b/quantify_scheduler/backends/qblox/conditional.py
index 7c533ec..0052a4a 100644
--- a/quantify_scheduler/backends/qblox/conditional.py
+++ b/quantify_scheduler/backends/qblox/conditional.py
@@ -8,12 +8,28 @@ from dataclasses import InitVar, dataclass, field
 from enum import Enum
 from typing import TYPE_CHECKING
 
+from quantify_scheduler.backends.qblox import q1asm_instructions
+
 if TYPE_CHECKING:
     from collections.abc import Sequence
 
-    from quantify_scheduler.backends.qblox.operation_handling.base import (
-        IOperationStrategy,
-    )
+_REAL_TIME_INSTRUCTIONS = (
+    q1asm_instructions.PLAY,
+    q1asm_instructions.ACQUIRE,
+    q1asm_instructions.ACQUIRE_WEIGHED,
+    q1asm_instructions.ACQUIRE_TTL,
+    q1asm_instructions.ACQUIRE_TIMETAGS,
+    q1asm_instructions.ACQUIRE_DIGITAL,
+    q1asm_instructions.PLAY_PULSE,
+    q1asm_instructions.UPD_THRES,
+    q1asm_instructions.WAIT,
+    q1asm_instructions.WAIT_SYNC,
+    q1asm_instructions.WAIT_TRIGGER,
+    q1asm_instructions.UPDATE_PARAMETERS,
+    q1asm_instructions.FEEDBACK_TRIGGER_EN,
+    q1asm_instructions.FEEDBACK_TRIGGERS_RST,
+)
+"""Instructions that take time, and are replaced by a wait if the condition does not hold."""
 
 
 @dataclass
@@ -29,19 +45,17 @@ class ConditionalManager:
     end_time: int = 0
     """End time of conditional playback."""
 
-    def update(self, operation: IOperationStrategy) -> None:
+    def update(self, instruction: str) -> None:
         """
         Update the conditional manager.
 
         Parameters
         ----------
-        operation : IOperationStrategy
-            Operation whose information is used to update the conditional manager.
-        time :
-            Timing
+        instruction :
+            Instruction that is added to the program.
 
         """
-        if operation.operation_info.is_real_time_io_operation:
+        if instruction in _REAL_TIME_INSTRUCTIONS:
             self.num_real_time_instructions += 1
 
     def reset(self) -> None:
diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index e376746..440e948 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -166,6 +166,7 @@ class QASMProgram:
 
         """
         self.instructions.append(self.get_instruction_as_list(*args, **kwargs))
+        self.conditional_manager.update(self.instructions[-1][1])
         return self.instructions[-1]
 
     # --- QOL functions -----
@@ -245,7 +246,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
             else:
                 for _ in range(repetitions):
                     self.emit(
@@ -255,7 +255,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
             time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
         else:
             time_left = int(wait_time)
@@ -268,7 +267,6 @@ class QASMProgram:
             )
             if count_as_elapsed_time:
                 self.elapsed_time += time_left
-            self.conditional_manager.num_real_time_instructions += 1
 
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
@@ -493,14 +491,30 @@ class QASMProgram:
             constants.MIN_TIME_BETWEEN_OPERATIONS,
             comment="else wait",
         )
-        # autowait now adds an additional duration to elapsed time that we need to compensate.
+        # If there is a trigger, each instruction of the else branch takes an additional
+        # duration, that the wait time in the else branch needs to compensate.
         duration = (
             self.conditional_manager.duration
             - constants.MIN_TIME_BETWEEN_OPERATIONS
             * self.conditional_manager.num_real_time_instructions
-            + constants.MIN_TIME_BETWEEN_OPERATIONS
         )
-        self.auto_wait(duration, count_as_elapsed_time=False)
+        additional_duration = constants.MIN_TIME_BETWEEN_OPERATIONS
+        while (
+            duration + additional_duration
+            > additional_duration
+            // constants.MIN_TIME_BETWEEN_OPERATIONS
+            * constants.IMMEDIATE_MAX_WAIT_TIME
+        ):
+            additional_duration += constants.MIN_TIME_BETWEEN_OPERATIONS
+        if duration + additional_duration <= 0:
+            raise ValueError(
+                f"The conditional playback ending at t={self.elapsed_time} ns, with a duration of "
+                f"{self.conditional_manager.duration} ns, is too short for its "
+                f"{self.conditional_manager.num_real_time_instructions} real time instructions. "
+                f"Each of them takes {constants.MIN_TIME_BETWEEN_OPERATIONS} ns if the condition "
+                f"does not hold."
+            )
+        self.auto_wait(duration + additional_duration, count_as_elapsed_time=False)
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
             0,
@@ -509,7 +523,7 @@ class QASMProgram:
             0,
             comment="stop conditional playback",
         )
-        self.elapsed_time += constants.MIN_TIME_BETWEEN_OPERATIONS
+        self.elapsed_time += additional_duration
 
         self.conditional_manager.reset()
         self._lock_conditional = False
@@ -559,6 +573,7 @@ class QASMProgram:
         comment = f"iterator for loop with label {label}"
 
         self._elapsed_times_in_loops.append(0)
+        num_real_time_instructions = self.conditional_manager.num_real_time_instructions
 
         self.emit(q1asm_instructions.MOVE, repetitions, register, comment=comment)
         self.emit(q1asm_instructions.NEW_LINE, label=label)
@@ -572,6 +587,10 @@ class QASMProgram:
 
         self._elapsed_times_in_loops[-1] += last_elapsed_time * repetitions
 
+        self.conditional_manager.num_real_time_instructions += (repetitions - 1) * (
+            self.conditional_manager.num_real_time_instructions - num_real_time_instructions
+        )
+
     @contextmanager
     def temp_registers(self, amount: int = 1) -> Iterator[list[str]]:
         """
-- 
2.43.0


From 5df30435f764e8b4603ac9c5a3dc66529554d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 08/48] fix: give weighted thresholded acquisitions a feedback
 trigger address

---
 quantify_scheduler/backends/qblox_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 5e2415f..56dcb29 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -484,6 +484,7 @@ def _set_conditional_info_map(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
                 DualThresholdedTriggerCount.__name__,
             ):
@@ -523,6 +524,7 @@ def _insert_latch_reset(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
             ):
                 if (feedback_trigger_label := info.get("feedback_trigger_label")) is not None:
-- 
2.43.0


From 2d9790cb89a33a801abbaa2b8a21281f3e4c58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 09/48] fix: reset the latches of all sequencers that have
 conditional operations on their clock

---
 quantify_scheduler/backends/qblox_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 56dcb29..826ef98 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -33,6 +33,7 @@ from quantify_scheduler.backends.qblox.crosstalk_compensation import (
 from quantify_scheduler.backends.qblox.enums import ChannelMode
 from quantify_scheduler.backends.qblox.helpers import (
     _generate_new_style_hardware_compilation_config,
+    _get_control_flow_port_clocks,
     assign_pulse_and_acq_info_to_devices,
 )
 from quantify_scheduler.backends.qblox.operations import long_ramp_pulse, long_square_pulse
@@ -469,7 +470,7 @@ def _set_conditional_info_map(
 
         conditional_info_map[
             feedback_trigger_label
-        ].portclocks |= operation.body.get_used_port_clocks()
+        ].portclocks |= _get_control_flow_port_clocks(operation)
 
     elif isinstance(operation, ControlFlowOperation):
         _set_conditional_info_map(
@@ -614,6 +615,14 @@ def compile_conditional_playback(  # noqa: D417
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
     _set_conditional_info_map(schedule, conditional_info_map, config)
+    # An operation on a clock is conditional on all port-clocks that use the clock.
+    used_port_clocks = schedule.get_used_port_clocks()
+    for conditional_info in conditional_info_map.values():
+        conditional_info.portclocks = {
+            (port, clock)
+            for port, clock in used_port_clocks
+            if not conditional_info.portclocks.isdisjoint({(port, clock), (None, clock)})
+        }
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map)
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From f839e0f5dc6ec7b7f6ba0783c2987e417a54e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 10/48] fix: find the trigger condition of conditional playback
 in any order of operations

---
 quantify_scheduler/backends/qblox_backend.py | 25 +++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 826ef98..8c5262b 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -461,12 +461,6 @@ def _set_conditional_info_map(
         control_flow_info["feedback_trigger_address"] = conditional_info_map[
             feedback_trigger_label
         ].address
-        control_flow_info["feedback_trigger_invert"] = conditional_info_map[
-            feedback_trigger_label
-        ].trigger_invert
-        control_flow_info["feedback_trigger_count"] = conditional_info_map[
-            feedback_trigger_label
-        ].trigger_count
 
         conditional_info_map[
             feedback_trigger_label
@@ -496,6 +490,24 @@ def _set_conditional_info_map(
                 )
 
 
+def _set_conditional_trigger_condition(
+    operation: Operation | Schedule,
+    conditional_info_map: defaultdict[str, ConditionalInfo],
+) -> None:
+    # The trigger condition depends on the acquisition, that can be anywhere in the
+    # dictionary of operations.
+    if isinstance(operation, ScheduleBase):
+        for inner_operation in operation.operations.values():
+            _set_conditional_trigger_condition(inner_operation, conditional_info_map)
+    elif isinstance(operation, ConditionalOperation):
+        control_flow_info: dict = operation.data["control_flow_info"]
+        conditional_info = conditional_info_map[control_flow_info["feedback_trigger_label"]]
+        control_flow_info["feedback_trigger_invert"] = conditional_info.trigger_invert
+        control_flow_info["feedback_trigger_count"] = conditional_info.trigger_count
+    elif isinstance(operation, ControlFlowOperation):
+        _set_conditional_trigger_condition(operation.body, conditional_info_map)
+
+
 def _insert_latch_reset(
     operation: Operation | Schedule,
     abs_time_relative_to_schedule: float,
@@ -615,6 +627,7 @@ def compile_conditional_playback(  # noqa: D417
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
     _set_conditional_info_map(schedule, conditional_info_map, config)
+    _set_conditional_trigger_condition(schedule, conditional_info_map)
     # An operation on a clock is conditional on all port-clocks that use the clock.
     used_port_clocks = schedule.get_used_port_clocks()
     for conditional_info in conditional_info_map.values():
-- 
2.43.0


From 184affc6c7295abe45c1fc6bdbbddbb193dc4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 11/48] fix: end a control flow operation before operations
 that start at its end, in any order of operations

---
 quantify_scheduler/backends/qblox/helpers.py | 64 ++++++++++++--------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 4991b67..d3f6cfb 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -752,52 +752,64 @@ def _get_list_of_operations_for_op_info_creation(
     accumulator: list[tuple[float, Operation, FullSchedulableLabel]],
     full_schedulable_label: FullSchedulableLabel,
 ) -> None:
+    for block in sorted(
+        _get_blocks_of_operations(operation, time_offset, full_schedulable_label),
+        key=lambda block: block[0][0],
+    ):
+        accumulator.extend(block)
+
+
+def _get_blocks_of_operations(
+    operation: Operation | Schedule,
+    time_offset: float,
+    full_schedulable_label: FullSchedulableLabel,
+) -> list[list[tuple[float, Operation, FullSchedulableLabel]]]:
+    """
+    Get all operations as a list of blocks.
+
+    A block is one operation, or all operations of a control flow operation ordered in
+    time. An operation that starts when a control flow operation ends comes after its
+    whole block if the blocks are ordered in time, also if it was added before.
+    """
     if isinstance(operation, ScheduleBase):
+        blocks = []
         for schedulable in operation.schedulables.values():
-            abs_time = schedulable["abs_time"]
-            inner_operation = operation.operations[schedulable["operation_id"]]
-            schedulable_label = schedulable["name"]
-            new_full_schedulable_label = full_schedulable_label + (schedulable_label,)
-            _get_list_of_operations_for_op_info_creation(
-                inner_operation,
-                time_offset + abs_time,
-                accumulator,
-                new_full_schedulable_label,
+            blocks.extend(
+                _get_blocks_of_operations(
+                    operation.operations[schedulable["operation_id"]],
+                    time_offset + schedulable["abs_time"],
+                    full_schedulable_label + (schedulable["name"],),
+                )
             )
-    elif isinstance(operation, ControlFlowOperation):
+        return blocks
+    if isinstance(operation, ControlFlowOperation):
         if not _get_control_flow_port_clocks(operation):
             # Nothing is played in the body, it only takes time.
-            return
-        accumulator.append(
+            return []
+        new_full_schedulable_label = full_schedulable_label + (None,)
+        block = [
             (
                 to_grid_time(time_offset) * 1e-9,
                 _get_control_flow_begin(operation),
-                full_schedulable_label + (None,),
+                new_full_schedulable_label,
             )
-        )
-        new_full_schedulable_label = full_schedulable_label + (None,)
+        ]
         _get_list_of_operations_for_op_info_creation(
             operation.body,
             time_offset,
-            accumulator,
+            block,
             new_full_schedulable_label,
         )
         assert operation.body.duration is not None
-        accumulator.append(
+        block.append(
             (
                 to_grid_time(time_offset + operation.body.duration) * 1e-9,
                 _get_control_flow_end(operation),
-                full_schedulable_label + (None,),
-            )
-        )
-    else:
-        accumulator.append(
-            (
-                to_grid_time(time_offset) * 1e-9,
-                operation,
-                full_schedulable_label,
+                new_full_schedulable_label,
             )
         )
+        return [block]
+    return [[(to_grid_time(time_offset) * 1e-9, operation, full_schedulable_label)]]
 
 
 def _assign_pulse_info_to_devices(
-- 
2.43.0


From b1aa01fe9222d60f8217f42eeb7592b6e8fb0861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 12/48] fix: accept weighted acquisitions whose sampling rate
 exceeds 1 GHz by a rounding error

---
 .../backends/qblox/operation_handling/acquisitions.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index de745bc..15f47e1 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -226,7 +226,10 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 )
             if "interpolated" in parameterized_waveform["wf_func"]:
                 weights_sampling_rate = len(parameterized_waveform["t_samples"]) / duration
-                if weights_sampling_rate > constants.SAMPLING_RATE:
+                # The division can exceed the sampling rate by a rounding error only.
+                if weights_sampling_rate > constants.SAMPLING_RATE and not np.isclose(
+                    weights_sampling_rate, constants.SAMPLING_RATE, rtol=1e-9
+                ):
                     raise ValueError(
                         f"Qblox hardware supports a sampling rate up to "
                         f"{constants.SAMPLING_RATE * 1e-9:0.1e} GHz, but a sampling "
-- 
2.43.0


From 1be61ce7af6dd1fed0b60cbb18b24d46160f1814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 13/48] fix: count the repetitions when checking for free Qblox
 acquisition bins

---
 .../backends/qblox/qblox_acq_index_manager.py               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
index 089b65f..5f904ea 100644
--- a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
+++ b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
@@ -255,7 +255,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
@@ -432,7 +433,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
-- 
2.43.0


From 136dbe3071b8a4d157b7a314967402641172efde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:46 +0000
Subject: [PATCH 14/48] fix: reject acquisition weights below -1 and accept
 weights of exactly one

---
 .../qblox/operation_handling/acquisitions.py         | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index 15f47e1..7e15504 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -242,11 +242,12 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 sampling_rate=constants.SAMPLING_RATE,
                 duration=duration,
             )
-            if abs(max(waveform_data)) > 1:
-                first_bad_idx, bad_value = next(
-                    (i, x) for i, x in enumerate(waveform_data) if x > 1
-                )
-                total = sum(np.abs(waveform_data) > 1)
+            # Interpolation can exceed an amplitude of 1 by a rounding error only.
+            out_of_range = np.abs(waveform_data) > 1 + 1e-9
+            if np.any(out_of_range):
+                first_bad_idx = int(np.argmax(out_of_range))
+                bad_value = waveform_data[first_bad_idx]
+                total = np.sum(out_of_range)
                 raise ValueError(
                     f"Acquisition weights with an amplitude greater than 1 are not "
                     f"supported by hardware. Acquisition weights array {idx} contains "
@@ -259,6 +260,7 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                     f"real-valued weights.\n\nException was triggered because of "
                     f"{self.operation_info!r}."
                 )
+            waveform_data = np.clip(waveform_data, -1, 1)
             waveform_index = helpers.add_to_wf_dict_if_unique(
                 wf_dict=wf_dict, waveform=waveform_data
             )
-- 
2.43.0


From 1aa7b879635734a299e830b9554453589e49726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 15/48] fix: keep the RF switch on during loops and
 conditionals that play

With automatic RF switching the pulses of loop iterations after the first and
pulses that are the body of a loop themselves were played with the switch off.
---
 .../backends/qblox/auto_rf_switch.py          | 193 +++++++++++++-----
 1 file changed, 140 insertions(+), 53 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index 07b3047..648d53b 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -11,7 +11,8 @@ from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
-    from quantify_scheduler.schedules.schedule import Schedule
+    from quantify_scheduler.operations.operation import Operation
+    from quantify_scheduler.schedules.schedule import Schedule, ScheduleBase
 
 
 @dataclass
@@ -75,7 +76,8 @@ def auto_rf_switch_dressing(
     exclusively on the root schedule so that sub-schedule durations are not modified,
     preventing timing issues for small schedules. Pulse windows from consecutive
     sub-schedules are also merged correctly because the merging operates on the global
-    timeline.
+    timeline. A control flow operation that plays on a port-clock counts as playing from
+    its start until its end.
 
     Parameters
     ----------
@@ -177,10 +179,6 @@ def _collect_all_mw_events_recursive(
         MW pulse info objects and VoltageOffset events, all with global absolute times.
 
     """
-    # Import here to avoid circular imports
-    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
-    from quantify_scheduler.schedules.schedule import ScheduleBase
-
     mw_pulses: list[MicrowavePulseInfo] = []
     vo_events: list[VoltageOffsetEvent] = []
 
@@ -192,61 +190,150 @@ def _collect_all_mw_events_recursive(
         # Global absolute start time of this schedulable
         schedulable_abs_time = time_offset + schedulable.data.get("abs_time", 0.0)
 
-        if isinstance(operation, ScheduleBase):
-            # Recurse into nested schedule; its internal abs_times are relative to it
-            sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                operation, schedulable_abs_time
-            )
-            mw_pulses.extend(sub_pulses)
-            vo_events.extend(sub_events)
-        elif isinstance(operation, ControlFlowOperation):
-            if isinstance(operation.body, ScheduleBase):
-                sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                    operation.body, schedulable_abs_time
-                )
-                mw_pulses.extend(sub_pulses)
-                vo_events.extend(sub_events)
-        else:
-            for pulse_info in operation.data.get("pulse_info", []):
-                port = pulse_info.get("port", "")
-                if not port or not port.endswith(":mw"):
-                    continue
+        sub_pulses, sub_events = _collect_mw_events_from_operation(
+            operation, schedulable_key, schedulable_abs_time
+        )
+        mw_pulses.extend(sub_pulses)
+        vo_events.extend(sub_events)
 
-                # Skip RF switch marker pulses
-                if pulse_info.get("marker_pulse"):
-                    continue
+    return mw_pulses, vo_events
 
-                abs_time = schedulable_abs_time + pulse_info.get("t0", 0.0)
-                duration = pulse_info.get("duration", 0.0)
-                clock = pulse_info.get("clock", "")
 
-                if pulse_info.get("wf_func") is None:
-                    # Could be a VoltageOffset (zero duration, no waveform function)
-                    if duration == 0.0:
-                        offset_I = pulse_info.get("offset_path_I") or 0.0  # noqa: N806
-                        offset_Q = pulse_info.get("offset_path_Q") or 0.0  # noqa: N806
-                        vo_events.append(
-                            VoltageOffsetEvent(
-                                abs_time=abs_time,
-                                port=port,
-                                clock=clock,
-                                is_nonzero=(offset_I != 0.0 or offset_Q != 0.0),
-                            )
-                        )
-                elif duration > 0.0:
-                    mw_pulses.append(
-                        MicrowavePulseInfo(
-                            schedulable_key=schedulable_key,
-                            abs_time=abs_time,
-                            duration=duration,
-                            port=port,
-                            clock=clock,
-                        )
+def _collect_mw_events_from_operation(
+    operation: Operation | ScheduleBase, schedulable_key: str, start_time: float
+) -> tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]:
+    """
+    Collect microwave pulses and VoltageOffset events from a single operation.
+
+    Parameters
+    ----------
+    operation
+        The operation, or (sub)schedule, to collect from.
+    schedulable_key
+        Key of the schedulable of the operation.
+    start_time
+        Global start time of the operation.
+
+    Returns
+    -------
+    tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]
+        MW pulse info objects and VoltageOffset events, all with global absolute times.
+
+    """
+    # Import here to avoid circular imports
+    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+    from quantify_scheduler.schedules.schedule import ScheduleBase
+
+    if isinstance(operation, ScheduleBase):
+        # Recurse into nested schedule; its internal abs_times are relative to it
+        return _collect_all_mw_events_recursive(operation, start_time)
+
+    if isinstance(operation, ControlFlowOperation):
+        return _extend_to_control_flow(
+            *_collect_mw_events_from_operation(operation.body, schedulable_key, start_time),
+            start_time=start_time,
+            end_time=start_time + operation.duration,
+        )
+
+    mw_pulses: list[MicrowavePulseInfo] = []
+    vo_events: list[VoltageOffsetEvent] = []
+
+    for pulse_info in operation.data.get("pulse_info", []):
+        port = pulse_info.get("port", "")
+        if not port or not port.endswith(":mw"):
+            continue
+
+        # Skip RF switch marker pulses
+        if pulse_info.get("marker_pulse"):
+            continue
+
+        abs_time = start_time + pulse_info.get("t0", 0.0)
+        duration = pulse_info.get("duration", 0.0)
+        clock = pulse_info.get("clock", "")
+
+        if pulse_info.get("wf_func") is None:
+            # Could be a VoltageOffset (zero duration, no waveform function)
+            if duration == 0.0:
+                offset_I = pulse_info.get("offset_path_I") or 0.0  # noqa: N806
+                offset_Q = pulse_info.get("offset_path_Q") or 0.0  # noqa: N806
+                vo_events.append(
+                    VoltageOffsetEvent(
+                        abs_time=abs_time,
+                        port=port,
+                        clock=clock,
+                        is_nonzero=(offset_I != 0.0 or offset_Q != 0.0),
                     )
+                )
+        elif duration > 0.0:
+            mw_pulses.append(
+                MicrowavePulseInfo(
+                    schedulable_key=schedulable_key,
+                    abs_time=abs_time,
+                    duration=duration,
+                    port=port,
+                    clock=clock,
+                )
+            )
 
     return mw_pulses, vo_events
 
 
+def _extend_to_control_flow(
+    mw_pulses: list[MicrowavePulseInfo],
+    vo_events: list[VoltageOffsetEvent],
+    start_time: float,
+    end_time: float,
+) -> tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]:
+    """
+    Extend what the body of a control flow operation plays to the whole operation.
+
+    The RF switch operations are inserted on the root schedule, so they cannot follow
+    the iterations of a loop. Therefore, a port-clock that is used in a control flow
+    operation is considered to be in use from its start until its end.
+
+    Parameters
+    ----------
+    mw_pulses
+        The microwave pulses in the body.
+    vo_events
+        The VoltageOffset events in the body.
+    start_time
+        Start time of the control flow operation.
+    end_time
+        End time of the control flow operation.
+
+    Returns
+    -------
+    tuple[list[MicrowavePulseInfo], list[VoltageOffsetEvent]]
+        The extended pulses and events.
+
+    """
+    pulses: dict[tuple[str, str], MicrowavePulseInfo] = {}
+    for pulse in mw_pulses:
+        pulses[(pulse.port, pulse.clock)] = MicrowavePulseInfo(
+            schedulable_key=pulse.schedulable_key,
+            abs_time=start_time,
+            duration=end_time - start_time,
+            port=pulse.port,
+            clock=pulse.clock,
+        )
+    events: dict[tuple[str, str, bool], VoltageOffsetEvent] = {}
+    last: dict[tuple[str, str], bool] = {}
+    for event in sorted(vo_events, key=lambda e: e.abs_time):
+        last[(event.port, event.clock)] = event.is_nonzero
+        events[(event.port, event.clock, event.is_nonzero)] = VoltageOffsetEvent(
+            abs_time=start_time if event.is_nonzero else end_time,
+            port=event.port,
+            clock=event.clock,
+            is_nonzero=event.is_nonzero,
+        )
+    return list(pulses.values()), [
+        event
+        for (port, clock, is_nonzero), event in events.items()
+        if is_nonzero or not last[(port, clock)]
+    ]
+
+
 def _voltage_offset_events_to_pulses(
     events: list[VoltageOffsetEvent],
 ) -> list[MicrowavePulseInfo]:
-- 
2.43.0


From 800f36d9db5d561b4d1e6e40a86b801f72f5b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 16/48] fix: reject acquisition weights that exceed the memory
 of a sequencer

---
 quantify_scheduler/backends/qblox/compiler_abc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 8391b1c..a3ba5de 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -441,11 +441,17 @@ class SequencerCompiler(ABC):
             weights. This exception is raised when either or both waveforms contain
             both a real and imaginary part.
 
+        RuntimeError
+            When the total size of the acquisition weights specified for a port-clock
+            combination exceeds the sample limit of the hardware.
+
         """
         wf_dict: dict[str, Any] = {}
         for op_strategy in self.op_strategies:
             if op_strategy.operation_info.is_acquisition:
                 op_strategy.generate_data(wf_dict)
+
+        self._validate_awg_dict(wf_dict=wf_dict)
         return wf_dict
 
     def _validate_awg_dict(self, wf_dict: dict[str, Any]) -> None:
-- 
2.43.0


From 35fbb49e9ae6629ad7fb54cb046813b38289649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 17/48] fix: prepare no component of a schedule that needs an
 absent one

---
 .../instrument_coordinator.py                 | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index 792dc48..456a509 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -235,21 +235,31 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             If the schedule provided is not a valid :class:`.CompiledSchedule`.
 
         """
-        self._compiled_schedule = compiled_schedule
-        if not CompiledSchedule.is_valid(self._compiled_schedule):
-            raise TypeError(f"{self._compiled_schedule} is not a valid {CompiledSchedule.__name__}")
+        if not CompiledSchedule.is_valid(compiled_schedule):
+            raise TypeError(f"{compiled_schedule} is not a valid {CompiledSchedule.__name__}")
+
+        # Look up all components first, so that nothing is prepared if one is absent.
+        components = {
+            instrument_name: self.get_component(base.instrument_to_component_name(instrument_name))
+            for instrument_name in compiled_schedule["compiled_instructions"]
+        }
+
+        # Not prepared (again) until all components are.
+        self._compiled_schedule = None
 
         # Adds a reference to the last prepared schedule this can be accessed through
         # the self.last_schedule property.
-        self._last_schedule = self._compiled_schedule
+        self._last_schedule = compiled_schedule
 
-        compiled_instructions = self._compiled_schedule["compiled_instructions"]
+        compiled_instructions = compiled_schedule["compiled_instructions"]
         # Compiled instructions are expected to follow the structure of a dict
         # with keys corresponding to instrument names (InstrumentCoordinatorComponent's)
         # and values containing instructions in the format specific to that type
         # of hardware. See also the specification in the CompiledSchedule class.
         for instrument_name, args in compiled_instructions.items():
-            self.get_component(base.instrument_to_component_name(instrument_name)).prepare(args)
+            components[instrument_name].prepare(args)
+
+        self._compiled_schedule = compiled_schedule
 
     def start(self) -> None:
         """
-- 
2.43.0


From 8b8e6f7a8ebfa9843002cac16ca54c053f686aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 18/48] fix: detect conflicting acquisitions that have
 repetitions

---
 .../instrument_coordinator/utility.py         | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index fb29b13..b167f00 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -154,18 +154,20 @@ def check_already_existing_acquisition(
 
         # We need to check if the values are `math.nan`, because if they are,
         # that means there is no value at that position (xarray standard).
-        def mask_func(x: float, y: float) -> int:
-            return 0 if np.isnan(x) or np.isnan(y) else 1
-
-        if len(common_0) and len(common_1):
-            conflict_mask = xarray.apply_ufunc(mask_func, common_0, common_1, vectorize=True)
-            for conflict in conflict_mask:
-                if conflict.values != [1]:
-                    continue
-                conflicting_coords = [("acq_channel", acq_channel)]
-                conflicting_coords += [(dim, conflict[dim].values) for dim in conflict.coords]
-                coords_str = [f"{dim}={coord}" for dim, coord in conflicting_coords]
-                conflicting_indices_str.append("; ".join(coords_str))
+        conflict_mask = ~(np.isnan(common_0) | np.isnan(common_1))
+
+        # Only report the dimension with labels, i.e. the acquisition index, and
+        # not the individual repetitions or samples of a trace.
+        dims = conflict_mask.dims
+        reported_dim = next((dim for dim in dims if dim in conflict_mask.indexes), dims[0])
+        conflict_mask = conflict_mask.any(dim=[dim for dim in dims if dim != reported_dim])
+        for conflict in conflict_mask:
+            if not conflict:
+                continue
+            conflicting_coords = [("acq_channel", acq_channel)]
+            conflicting_coords += [(dim, conflict[dim].values) for dim in conflict.coords]
+            coords_str = [f"{dim}={coord}" for dim, coord in conflicting_coords]
+            conflicting_indices_str.append("; ".join(coords_str))
 
     if conflicting_indices_str:
         conflicting_indices_str = "\n".join(conflicting_indices_str)
-- 
2.43.0


From 0bfc4b5903f684fa7a7be7b40ca59984c15ce83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 19/48] fix: raise KeyError for any absent component name

---
 .../instrument_coordinator/instrument_coordinator.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index 456a509..8fdc82d 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -161,7 +161,7 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             # derivative of InstrumentCoordinatorComponentBase.
             return self.find_instrument(full_name)  # type: ignore
         raise KeyError(
-            f"'{full_name.split('ic_')[1]}' appears in the hardware config,"
+            f"'{full_name.removeprefix('ic_')}' appears in the hardware config,"
             f" but was not added as a component to InstrumentCoordinator '{self.name}'."
         )
 
-- 
2.43.0


From 4676f7e8ec55a75f3abb3ff4e8b4692146413896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:56 +0000
Subject: [PATCH 20/48] fix: merging Rz gates must not change other gates,
 timing or overrides

Only neighbouring Rz gates that happen at the same time and have the same
device overrides are merged, and the merged gate replaces the originals, which
may be used elsewhere too, instead of modifying them.
---
 quantify_scheduler/compilation.py | 76 ++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index a6eb1f6..c1bffee 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import logging
+from copy import deepcopy
 from typing import TYPE_CHECKING, Literal, overload
 
 import networkx as nx
@@ -407,6 +408,38 @@ def _normalize_absolute_timing(
     return schedule
 
 
+def _are_equivalent_rz_gates(
+    first: Operation | Schedule,
+    second: Operation | Schedule,
+) -> bool:
+    """Whether two operations are both Rz gates that only differ in their angle."""
+    return (
+        isinstance(first, Rz)
+        and isinstance(second, Rz)
+        and first.qubit == second.qubit
+        and first.data["gate_info"].get("device_overrides")
+        == second.data["gate_info"].get("device_overrides")
+    )
+
+
+def _are_simultaneous(
+    first: Schedulable, second: Schedulable, strategy: SchedulingStrategy
+) -> bool:
+    """
+    Whether two zero-duration neighbours in a schedule happen at the same time.
+
+    This is only decided for timing constraints that refer one to the other without delay.
+    """
+    if strategy == SchedulingStrategy.ALAP:
+        first, second = second, first
+    timing_constraints = second.data["timing_constraints"]
+    return (
+        len(timing_constraints) == 1
+        and timing_constraints[0].ref_schedulable in (None, first["name"])
+        and not timing_constraints[0].rel_time
+    )
+
+
 @overload
 def _merge_rz_gates(
     schedule: Schedule,
@@ -433,27 +466,36 @@ def _merge_rz_gates(
                 config=config,
             )
 
-        last_op = None
-        # Copy list so we can modify it while iterating
-        for inner_sched_key in list(op.schedulables):
-            inner_sched = op.schedulables[inner_sched_key]
-            inner_op = op.operations[inner_sched["operation_id"]]
-
+        strategy = _determine_scheduling_strategy(config)
+        replaced_op_ids = set()
+        last_sched = None
+        prev_sched = None
+        for inner_sched in op.schedulables.values():
             # Merge Rz gates if possible
             if (
-                isinstance(inner_op, Rz)
-                and isinstance(last_op, Rz)
-                and inner_op.qubit == last_op.qubit
+                last_sched is not None
+                and _are_equivalent_rz_gates(
+                    op.operations[last_sched["operation_id"]],
+                    op.operations[inner_sched["operation_id"]],
+                )
+                and _are_simultaneous(prev_sched, inner_sched, strategy)
             ):
-                last_op.theta += inner_op.theta
+                # The gates can also be used elsewhere, so they must not be modified.
+                merged_op = deepcopy(op.operations[last_sched["operation_id"]])
+                merged_op.theta += op.operations[inner_sched["operation_id"]].theta
                 noop = IdlePulse(0)
-                noop_id = noop.hash
-                op.operations[noop_id] = noop
-                inner_sched["operation_id"] = noop_id
-                continue
-
-            # Record last
-            last_op = inner_op
+                for sched, new_op in ((last_sched, merged_op), (inner_sched, noop)):
+                    replaced_op_ids.add(sched["operation_id"])
+                    sched["operation_id"] = new_op.hash
+                    op.operations[new_op.hash] = new_op
+            else:
+                # Record last
+                last_sched = inner_sched
+            prev_sched = inner_sched
+
+        used_op_ids = {sched["operation_id"] for sched in op.schedulables.values()}
+        for unused_op_id in replaced_op_ids - used_op_ids:
+            del op.operations[unused_op_id]
 
         return op
     elif isinstance(op, ControlFlowOperation):
-- 
2.43.0


From 2ee20d2e4e08cd0e7e51d7bf92a090195682f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 21/48] fix: delay of the operation after a measurement without
 acquisition delay

With a frequency override the delay moved the restoring of the clock frequency
into the acquisition, and an overridden acquisition delay was not considered.
---
 .../backends/circuit_to_device.py             | 22 +++++++++----------
 .../operations/measurement_factories.py       |  7 ++++--
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index db179f1..1ebcbd1 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -744,12 +744,6 @@ def _get_device_repr_from_cfg(
     factory_func = operation_cfg.factory_func
 
     factory_kwargs: dict = operation_cfg.factory_kwargs
-    if (
-        isinstance(operation, Measure)
-        and not operation.data["gate_info"]["apply_acquisition_delay"]
-    ):
-        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
-
     # retrieve keyword args for parametrized operations from the gate info
     if operation_cfg.gate_info_factory_kwargs is not None:
         for key in operation_cfg.gate_info_factory_kwargs:
@@ -760,6 +754,12 @@ def _get_device_repr_from_cfg(
         if key in factory_kwargs:
             factory_kwargs[key] = value
 
+    if (
+        isinstance(operation, Measure)
+        and not operation.data["gate_info"]["apply_acquisition_delay"]
+    ):
+        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
+
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
@@ -791,17 +791,17 @@ def _get_device_repr_from_cfg_multiplexed(
             else:
                 factory_kwargs[key] = gate_info
 
+    # Add operation defined custom device overrides.
+    for key, value in device_overrides.items():
+        if key in factory_kwargs:
+            factory_kwargs[key] = value
+
     if (
         isinstance(operation, Measure)
         and not operation.data["gate_info"]["apply_acquisition_delay"]
     ):
         factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
 
-    # Add operation defined custom device overrides.
-    for key, value in device_overrides.items():
-        if key in factory_kwargs:
-            factory_kwargs[key] = value
-
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 6198d44..210e092 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -148,7 +148,10 @@ def _dispersive_measurement(  # noqa: PLR0915
     schedule_data = {}
     if next_operation_delay:
         schedule_data["next_operation_delay"] = next_operation_delay
-    subschedule = Schedule("dispersive_measurement", data=schedule_data)
+    # The delay is relative to the operation that follows the complete measurement.
+    subschedule = Schedule(
+        "dispersive_measurement", data=schedule_data if freq is None else None
+    )
 
     if acq_protocol != "LongTimeTrace":
         if reset_clock_phase:
@@ -377,7 +380,7 @@ def _dispersive_measurement(  # noqa: PLR0915
         raise ValueError(f'Acquisition protocol "{acq_protocol}" is not supported.')
 
     if freq is not None:
-        subschedule_with_freq = Schedule("dispersive_measurement_with_freq")
+        subschedule_with_freq = Schedule("dispersive_measurement_with_freq", data=schedule_data)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=freq))
         subschedule_with_freq.add(subschedule)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=None))
-- 
2.43.0


From 554eaad29ef30035d2195af6c840b88941ca6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 22/48] fix: LongTimeTrace measurements use the acquisition
 channel of the device element

---
 quantify_scheduler/operations/measurement_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 210e092..9a9fa22 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -347,7 +347,7 @@ def _dispersive_measurement(  # noqa: PLR0915
             port=port,
             clock=clock,
             duration=acq_duration,
-            acq_channel=0,
+            acq_channel=acq_channel,
             coords=coords,
             acq_index=acq_index,
             bin_mode=bin_mode,
-- 
2.43.0


From dd20ad3424872f58801d80c3107f55ee3be431b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 23/48] fix: measurements in schedules with the ALAP strategy

The relative timing within the device-level schedule of a gate was resolved with
ALAP too, which moved the readout pulse before the acquisition and made
multiplexed measurements fail.
---
 .../backends/circuit_to_device.py             | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index 1ebcbd1..31983c0 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -17,6 +17,8 @@ from quantify_scheduler.backends.graph_compilation import (
     OperationCompilationConfig,
 )
 from quantify_scheduler.backends.qblox.operations.inline_q1asm import InlineQ1ASM
+from quantify_scheduler.compilation import _determine_absolute_timing
+from quantify_scheduler.enums import SchedulingStrategy
 from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
 from quantify_scheduler.operations.gate_library import Measure
 from quantify_scheduler.operations.pulse_compensation_library import (
@@ -468,6 +470,20 @@ def _assert_operation_valid_device_level(operation: Operation) -> None:
         )
 
 
+def _determine_device_schedule_timing(
+    schedule: Schedule, device_cfg: DeviceCompilationConfig
+) -> Schedule:
+    """
+    Determine the timing of a schedule that implements a gate on the device level.
+
+    The relative timing within a gate does not depend on the scheduling strategy of
+    the schedule the gate is part of.
+    """
+    if device_cfg.scheduling_strategy != SchedulingStrategy.ASAP:
+        schedule = _determine_absolute_timing(schedule)
+    return schedule
+
+
 def _compile_multiplexed(
     operation: Operation,
     device_elements: Sequence[str],
@@ -511,12 +527,13 @@ def _compile_multiplexed(
         new_device_overrides = {**device_op_device_overrides, **device_overrides}
 
         if isinstance(device_op, ScheduleBase):
+            compiled_schedule = _compile_circuit_to_device(
+                operation=device_op,
+                device_cfg=device_cfg,
+                device_overrides=new_device_overrides,
+            )
             inner_subschedules.append(
-                _compile_circuit_to_device(
-                    operation=device_op,
-                    device_cfg=device_cfg,
-                    device_overrides=new_device_overrides,
-                )
+                _determine_device_schedule_timing(compiled_schedule, device_cfg)
             )
         else:
             operation.add_device_representation(device_op)
@@ -556,7 +573,7 @@ def _compile_multiplexed(
         if next_operation_delays:
             inner_schedule.data["next_operation_delay"] = min(next_operation_delays)
 
-        return inner_schedule
+        return _determine_device_schedule_timing(inner_schedule, device_cfg)
     else:
         return operation
 
@@ -598,11 +615,12 @@ def _compile_single_device_element(
     new_device_overrides = {**device_op_device_overrides, **device_overrides}
 
     if isinstance(device_op, ScheduleBase):
-        return _compile_circuit_to_device(
+        compiled_schedule = _compile_circuit_to_device(
             operation=device_op,
             device_cfg=device_cfg,
             device_overrides=new_device_overrides,
         )
+        return _determine_device_schedule_timing(compiled_schedule, device_cfg)
     else:
         operation.add_device_representation(device_op)
         return operation
@@ -660,11 +678,12 @@ def _compile_two_device_elements(
     new_device_overrides = {**device_op_device_overrides, **device_overrides}
 
     if isinstance(device_op, ScheduleBase):
-        return _compile_circuit_to_device(
+        compiled_schedule = _compile_circuit_to_device(
             operation=device_op,
             device_cfg=device_cfg,
             device_overrides=new_device_overrides,
         )
+        return _determine_device_schedule_timing(compiled_schedule, device_cfg)
     else:
         operation.add_device_representation(device_op)
         return operation
-- 
2.43.0


From 86e81188b701c5295d567e8d0d81db8d42c6e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 24/48] fix: gates in control-flow bodies of schedules with the
 ALAP strategy

The timing of the device-level schedule of a gate is already known.
---
 quantify_scheduler/compilation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index c1bffee..8041e36 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -104,7 +104,8 @@ def _determine_absolute_timing(
     if isinstance(schedule, ScheduleBase):
         return _determine_absolute_timing_schedule(schedule, time_unit, config)
     elif isinstance(schedule, ControlFlowOperation):
-        schedule.body = _determine_absolute_timing(schedule.body, time_unit, config)
+        if not isinstance(schedule.body, ScheduleBase) or schedule.body.get("duration") is None:
+            schedule.body = _determine_absolute_timing(schedule.body, time_unit, config)
         return schedule
     elif schedule.duration is None:
         raise RuntimeError(
-- 
2.43.0


From fed2f9c24b4cb28447c91ab996a3adf5625aadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:18 +0000
Subject: [PATCH 25/48] fix: multiplexed operations that combine pulses and
 schedules and are used more than once

---
 quantify_scheduler/backends/circuit_to_device.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index 31983c0..b1e228a 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -494,8 +494,10 @@ def _compile_multiplexed(
     """
     Compiles gate with multiple device elements.
 
-    Note: it updates the `operation`, if it can directly add pulse representation.
+    Note: it updates a copy of the `operation`, if it can directly add pulse representation,
+    since the result may be a schedule and the `operation` can also be used elsewhere.
     """
+    operation = deepcopy(operation)
     inner_subschedules: list = []
     operation_has_device_representation: bool = False
 
-- 
2.43.0


From d1228bd991102de73ab572184e1704f2b125917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:31 +0000
Subject: [PATCH 26/48] fix: sample a waveform without an extra point due to
 floating point errors

---
 quantify_scheduler/helpers/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 67a97c6..3d08f11 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -175,7 +175,9 @@ def get_waveform(
         The waveform.
 
     """
-    t: np.ndarray = np.arange(0, 0 + pulse_info["duration"], 1 / sampling_rate)
+    # Rounding before `ceil` prevents that floating point errors in the duration add a sample.
+    num_samples: int = math.ceil(round(pulse_info["duration"] * sampling_rate, 6))
+    t: np.ndarray = np.arange(num_samples) / sampling_rate
     wf_func: str = pulse_info["wf_func"]
     waveform: np.ndarray = exec_waveform_function(wf_func, t, pulse_info)
 
-- 
2.43.0


From 38d067a74d0e445afc5613c5f8fe44e466ace602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:31 +0000
Subject: [PATCH 27/48] fix: pulse compensation of control-flow bodies and in
 schedules with the ALAP strategy

---
 quantify_scheduler/pulse_compensation.py | 25 +++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/pulse_compensation.py b/quantify_scheduler/pulse_compensation.py
index b553554..423a576 100644
--- a/quantify_scheduler/pulse_compensation.py
+++ b/quantify_scheduler/pulse_compensation.py
@@ -9,7 +9,11 @@ from copy import deepcopy
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, overload
 
-from quantify_scheduler.compilation import _determine_absolute_timing
+from quantify_scheduler.compilation import (
+    _determine_absolute_timing,
+    _determine_scheduling_strategy,
+)
+from quantify_scheduler.enums import SchedulingStrategy
 from quantify_scheduler.helpers.waveforms import area_pulse
 from quantify_scheduler.operations.control_flow_library import (
     ConditionalOperation,
@@ -179,6 +183,7 @@ def _determine_compensation_pulse(
     max_compensation_amp: dict[Port, float],
     time_grid: float,
     sampling_rate: float,
+    config: CompilationConfig | None = None,
 ) -> dict[Port, CompensationPulseParams]:
     """
     Calculates the timing and the amplitude of a compensation pulse for each port.
@@ -202,6 +207,9 @@ def _determine_compensation_pulse(
         Time grid the compensation pulse needs to be on.
     sampling_rate
         Sampling rate of the pulses.
+    config
+        Compilation config for
+        :class:`~quantify_scheduler.backends.graph_compilation.QuantifyCompiler`.
 
     Returns
     -------
@@ -213,9 +221,9 @@ def _determine_compensation_pulse(
     pulses_start_duration_amp: dict[Port, CompensationPulseParams] = {}
 
     operation_with_abs_times = (
-        operation
-        if not isinstance(operation, Schedule)
-        else _determine_absolute_timing(deepcopy(operation), None)
+        _determine_absolute_timing(deepcopy(operation), config=config)
+        if isinstance(operation, (ScheduleBase, ControlFlowOperation))
+        else operation
     )
     ports: set[str] = set(max_compensation_amp.keys())
     pulses_sum_end: dict[Port, SumEnd] = _determine_sum_and_end_of_all_pulses(
@@ -289,13 +297,14 @@ def process_compensation_pulses(
         return operation
     elif isinstance(operation, PulseCompensation):
         # Inner pulse compensated blocks need to be resolved first.
-        resolved_body = process_compensation_pulses(operation.body)
+        resolved_body = process_compensation_pulses(operation.body, config)
         all_compensation_pulse_params: dict[Port, CompensationPulseParams] = (
             _determine_compensation_pulse(
                 resolved_body,
                 operation.max_compensation_amp,
                 operation.time_grid,
                 operation.sampling_rate,
+                config,
             )
         )
 
@@ -319,5 +328,11 @@ def process_compensation_pulses(
                 ref_pt_new="start",
             )
 
+        if _determine_scheduling_strategy(config) == SchedulingStrategy.ALAP:
+            # The origin of an ALAP schedule is its last operation.
+            schedulables = pulse_compensated_schedule.schedulables
+            body_name = first_op_schedulable["name"]
+            schedulables[body_name] = schedulables.pop(body_name)
+
         return pulse_compensated_schedule
     return schedule
-- 
2.43.0


From e36a411203e9408d704b125e563e2525be1db166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 28/48] fix: crosstalk compensation keeps every pulse and its
 timing

---
 .../backends/qblox/crosstalk_compensation.py  | 207 ++++++++++++------
 quantify_scheduler/waveforms.py               |   2 +-
 2 files changed, 135 insertions(+), 74 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index 472887e..bd48f73 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -5,7 +5,7 @@
 from __future__ import annotations
 
 from copy import deepcopy
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
@@ -13,7 +13,9 @@ if TYPE_CHECKING:
 
 import numpy as np
 
-from quantify_scheduler.schedules import Schedulable, Schedule
+from quantify_scheduler.compilation import _determine_absolute_timing
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+from quantify_scheduler.schedules.schedule import Schedule, ScheduleBase
 
 
 def crosstalk_compensation(
@@ -49,20 +51,75 @@ def crosstalk_compensation(
         hardware_options.crosstalk, port_clock_list
     )
 
-    for schedulable in list(schedule.schedulables.values()):
-        operation = schedule.operations[schedulable["operation_id"]]
+    _apply_compensation(schedule, port_clock_list, compensation_matrix, {})
 
-        if isinstance(operation, Schedule):
-            # Recursively apply compensation to nested schedules
-            schedule.operations[schedulable["operation_id"]] = crosstalk_compensation(
-                operation, config
-            )
+    return schedule
+
+
+def _apply_compensation(
+    operation: Operation | Schedule,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
+    compensated: dict[int, Operation | Schedule],
+) -> Operation | Schedule:
+    """
+    Compensate a schedule, a control flow operation or an operation in the body of one.
+
+    Schedules and control flow operations that are used more than once are compensated once.
+    """
+    if id(operation) in compensated:
+        return compensated[id(operation)]
+
+    if isinstance(operation, ScheduleBase):
+        compensated[id(operation)] = operation
+        _apply_compensation_to_schedule(
+            operation, port_clock_list, compensation_matrix, compensated
+        )
+    elif isinstance(operation, ControlFlowOperation):
+        compensated[id(operation)] = operation
+        operation.body = _apply_compensation(
+            operation.body, port_clock_list, compensation_matrix, compensated
+        )
+    elif is_pulse(operation):
+        # The body of a control flow operation that consists of one operation.
+        body = Schedule(operation.name)
+        body.add(operation)
+        body = _determine_absolute_timing(body)
+        compensated[id(body)] = body
+        _apply_compensation_to_schedule(body, port_clock_list, compensation_matrix, compensated)
+        return body
+    return operation
+
+
+def _apply_compensation_to_schedule(
+    schedule: Schedule,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
+    compensated: dict[int, Operation | Schedule],
+) -> None:
+    compensation_keys: dict[str, list[str]] = {}
+    for operation_key, operation in list(schedule.operations.items()):
+        if isinstance(operation, (ScheduleBase, ControlFlowOperation)):
+            _apply_compensation(operation, port_clock_list, compensation_matrix, compensated)
         elif is_pulse(operation):
-            _apply_compensation_to_operation(
-                schedule, operation, schedulable, port_clock_list, compensation_matrix
+            compensation_operations = _get_compensation_operations(
+                operation, port_clock_list, compensation_matrix
             )
+            schedule.operations[operation_key] = _get_adjusted_operation(
+                operation, port_clock_list, compensation_matrix
+            )
+            compensation_keys[operation_key] = []
+            for i, compensation_operation in enumerate(compensation_operations):
+                key = f"{operation_key}_compensation_{i}"
+                schedule.operations[key] = compensation_operation
+                compensation_keys[operation_key].append(key)
 
-    return schedule
+    for schedulable_key, schedulable in list(schedule.schedulables.items()):
+        for i, key in enumerate(compensation_keys.get(schedulable["operation_id"], [])):
+            compensation_schedulable = deepcopy(schedulable)
+            compensation_schedulable["name"] = f"{schedulable_key}_compensation_{i}"
+            compensation_schedulable["operation_id"] = key
+            schedule.schedulables[compensation_schedulable["name"]] = compensation_schedulable
 
 
 def _get_unique_port_clocks(crosstalk: dict[str, dict[str, float]]) -> list[str]:
@@ -108,71 +165,75 @@ def is_pulse(operation: Operation) -> bool:
         True if the operation is a pulse, False otherwise.
 
     """
-    return (
-        len(operation.data["pulse_info"]) > 0
-        and operation.data["pulse_info"][0]["wf_func"] is not None
+    return any(
+        pulse_info["wf_func"] is not None for pulse_info in operation.data.get("pulse_info", [])
     )
 
 
-def _apply_compensation_to_operation(
-    schedule: Schedule,
+def _get_port_clock_index(pulse_info: dict[str, Any], port_clock_list: list[str]) -> int | None:
+    port_clock = f"{pulse_info['port']}-{pulse_info['clock']}"
+    if pulse_info["wf_func"] is None or port_clock not in port_clock_list:
+        return None
+    return port_clock_list.index(port_clock)
+
+
+def _get_compensation_operations(
     operation: Operation,
-    schedulable: Schedulable,
     port_clock_list: list[str],
     compensation_matrix: np.ndarray,
-) -> None:
-    port_clock = (
-        f"{operation.data['pulse_info'][0]['port']}-{operation.data['pulse_info'][0]['clock']}"
-    )
-    port_clock_index = port_clock_list.index(port_clock)
-    compensation_row = compensation_matrix[port_clock_index]
-
-    # Add compensation pulses to port clocks that are affected by crosstalk
-    for i, compensation_value in enumerate(compensation_row):
-        if compensation_value != 0 and i != port_clock_index:
-            _add_compensation_operation(
-                schedule,
-                operation,
-                schedulable,
-                port_clock_list[i],
-                compensation_value,
-                i,
-            )
-
-    # Adjust all params that have amp in them
-    for key in operation.data["pulse_info"][0]:
-        if "amp" in key:
-            operation.data["pulse_info"][0][key] *= compensation_row[port_clock_index]
-
-
-def _add_compensation_operation(
-    schedule: Schedule,
-    original_operation: Operation,
-    original_schedulable: Schedulable,
-    target_port_clock: str,
-    compensation_value: float,
-    index: int,
-) -> None:
-    compensation_op = deepcopy(original_operation)
-    target_port, target_clock = target_port_clock.split("-")
-
-    # amp of compensation operation is product of the original amplitude and compensation value.
-    compensation_op.data["pulse_info"][0].update(
-        {
-            "port": target_port,
-            "clock": target_clock,
-        }
-    )
-    for key in compensation_op.data["pulse_info"][0]:
-        if "amp" in key:
-            compensation_op.data["pulse_info"][0][key] = (
-                original_operation.data["pulse_info"][0][key] * compensation_value
+) -> list[Operation]:
+    """Get the operations for the port-clocks that are affected by crosstalk."""
+    compensation_operations = []
+    for pulse_info in operation.data["pulse_info"]:
+        index = _get_port_clock_index(pulse_info, port_clock_list)
+        if index is None:
+            continue
+        for target_index, value in enumerate(compensation_matrix[index]):
+            if value != 0 and target_index != index:
+                port, clock = port_clock_list[target_index].split("-")
+                compensation_operation = deepcopy(operation)
+                compensation_operation.data["acquisition_info"] = []
+                compensation_operation.data["pulse_info"] = [
+                    {**_scale_pulse(pulse_info, value), "port": port, "clock": clock}
+                ]
+                compensation_operation._update()
+                compensation_operations.append(compensation_operation)
+    return compensation_operations
+
+
+def _get_adjusted_operation(
+    operation: Operation,
+    port_clock_list: list[str],
+    compensation_matrix: np.ndarray,
+) -> Operation:
+    """Get a copy of the operation, with its pulses adjusted for crosstalk."""
+    adjusted_operation = deepcopy(operation)
+    for i, pulse_info in enumerate(operation.data["pulse_info"]):
+        index = _get_port_clock_index(pulse_info, port_clock_list)
+        if index is not None:
+            adjusted_operation.data["pulse_info"][i] = _scale_pulse(
+                pulse_info, compensation_matrix[index][index]
             )
-
-    schedule.operations[compensation_op.hash] = compensation_op
-
-    compensation_schedulable = deepcopy(original_schedulable)
-    compensation_schedulable["operation_id"] = compensation_op.hash
-    schedule.schedulables[f"{original_operation.hash}_compensation_{index}"] = (
-        compensation_schedulable
-    )
+    adjusted_operation._update()
+    return adjusted_operation
+
+
+def _scale_pulse(pulse_info: dict[str, Any], value: complex) -> dict[str, Any]:
+    """Get a copy of the pulse, with all parameters its waveform is proportional to scaled."""
+    value = value.real if value.imag == 0 else value
+    wf_func = pulse_info["wf_func"].split(".")[-1]
+    pulse_info = deepcopy(pulse_info)
+
+    if wf_func == "drag":
+        # The derivative component is relative to the amplitude of the Gaussian.
+        pulse_info["G_amp"] *= value
+    elif wf_func == "interpolated_complex_waveform":
+        pulse_info["samples"] = [sample * value for sample in pulse_info["samples"]]
+    elif wf_func == "sudden_net_zero":
+        # The other parameters are relative to this one.
+        pulse_info["amp_A"] *= value
+    else:
+        for key in pulse_info:
+            if "amp" in key or (wf_func == "ramp" and key == "offset"):
+                pulse_info[key] *= value
+    return pulse_info
diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 1bdac88..c896051 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -354,7 +354,7 @@ def sudden_net_zero(
             "Specified pulse part durations add up to longer than the given time array."
         )
 
-    waveform = np.zeros(len(t))
+    waveform = np.zeros(len(t), dtype=np.result_type(float, amp_A))
     waveform[:single_arm_samples] = amp_A
     waveform[single_arm_samples - 1] = amp_A * amp_B
     waveform[single_arm_samples + mid_samples : 2 * single_arm_samples + mid_samples] = (
-- 
2.43.0


From e0297e400550cf4e7af3eb2e64ef240be9f763ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:21 +0000
Subject: [PATCH 29/48] fix: one LO frequency per channel or external LO, and
 downconversion inverts frequency changes

---
 quantify_scheduler/backends/qblox/analog.py      |  1 +
 .../backends/qblox/operation_handling/virtual.py | 12 +++++++-----
 quantify_scheduler/backends/qblox_backend.py     | 16 ++++++++++++++++
 quantify_scheduler/backends/types/qblox.py       | 15 ++++++++++++---
 4 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 64ccb86..dbade32 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -431,6 +431,7 @@ class AnalogSequencerCompiler(SequencerCompiler):
                 op_strat.operation_info.data.update(
                     {
                         "interm_freq_old": self.frequency,
+                        "downconverter_freq": self.downconverter_freq,
                     }
                 )
 
diff --git a/quantify_scheduler/backends/qblox/operation_handling/virtual.py b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
index fd13b5c..6d28b1f 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/virtual.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
@@ -145,11 +145,13 @@ class NcoSetClockFrequencyStrategy(IdleStrategy):
                 f"the hardware config."
             )
 
-        interm_freq_new = (
-            (interm_freq_old + clock_freq_new - clock_freq_old)
-            if (clock_freq_new is not None)
-            else interm_freq_old
-        )
+        interm_freq_new = interm_freq_old
+        if clock_freq_new is not None:
+            if self.operation_info.data.get("downconverter_freq") is None:
+                interm_freq_new += clock_freq_new - clock_freq_old
+            else:
+                # The clock frequency is subtracted from the downconverter frequency.
+                interm_freq_new -= clock_freq_new - clock_freq_old
 
         frequency_args = helpers.get_nco_set_frequency_arguments(interm_freq_new)
         qasm_program.emit(
diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 8c5262b..270cb94 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import itertools
+import math
 import re
 import warnings
 from abc import ABC
@@ -1036,7 +1037,16 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                             lo_config = lo_configs[lo_name]
                             if lo_config.hardware_description.instrument_name is None:
                                 lo_config.hardware_description.instrument_name = lo_name
+                            if frequencies.lo_freq is None:
+                                continue
+                            if lo_config.frequency is None:
                                 lo_config.frequency = frequencies.lo_freq
+                            elif not math.isclose(lo_config.frequency, frequencies.lo_freq):
+                                raise ValueError(
+                                    f"Conflicting frequencies {lo_config.frequency:e} and "
+                                    f"{frequencies.lo_freq:e} specified for local oscillator "
+                                    f"'{lo_name}', the latter for port-clock '{portclock}'."
+                                )
 
         # Extract hardware options
         clusters_hardware_options: dict[str, dict[str, dict[str, Any]]] = defaultdict(
@@ -1222,6 +1232,12 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                     mixer = port_nbr[: port_nbr.rindex(".")]
                     mixer_path, mixer_lo = get_module_and_lo_for_mixer(mixer)
                     path = ChannelPath.from_path(mixer_path)
+                    if cluster_lo_to_path[path.cluster_name].get(mixer_lo, path) != path:
+                        raise ValueError(
+                            f"Local oscillator '{mixer_lo}' is connected to more than one channel: "
+                            f"'{cluster_lo_to_path[path.cluster_name][mixer_lo]}' and '{path}'. "
+                            f"This is not supported."
+                        )
                     cluster_lo_to_path[path.cluster_name][mixer_lo] = path
                     for clock in clocks:
                         # NV center hack:
diff --git a/quantify_scheduler/backends/types/qblox.py b/quantify_scheduler/backends/types/qblox.py
index 7bced1e..fcfee32 100644
--- a/quantify_scheduler/backends/types/qblox.py
+++ b/quantify_scheduler/backends/types/qblox.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass
@@ -569,9 +570,17 @@ class RFModuleSettings(AnalogModuleSettings):
                 pc_freqs = modulation_frequencies.get(portclock)
                 lo_freq = pc_freqs.lo_freq if pc_freqs is not None else None
                 if (
-                    lo_freq_setting := channel_name_to_lo_freq_setting.get(path.channel_name)
-                ) is not None:
-                    rf_settings[lo_freq_setting] = lo_freq
+                    lo_freq is not None
+                    and (lo_freq_setting := channel_name_to_lo_freq_setting.get(path.channel_name))
+                    is not None
+                ):
+                    # Several port-clocks can use the same LO.
+                    previous_lo_freq = rf_settings.setdefault(lo_freq_setting, lo_freq)
+                    if not math.isclose(previous_lo_freq, lo_freq):
+                        raise ValueError(
+                            f"Conflicting LO frequencies {previous_lo_freq:e} and {lo_freq:e} "
+                            f"specified for '{path}', the latter for port-clock '{portclock}'."
+                        )
 
         combined_settings = {**rf_settings, **kwargs}
         return cls(**combined_settings)
-- 
2.43.0


From f4d7b6b97af723ed675533ec956f4764739aecc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:09 +0000
Subject: [PATCH 30/48] fix: stack overlapping pulses in a fixed order

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 6af626c..8d54cf5 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -30,7 +30,7 @@ class PulseInterval:
 
     start_time: float
     end_time: float
-    pulse_keys: set[str]
+    pulse_keys: list[str]
 
 
 @dataclass
@@ -150,7 +150,8 @@ def _construct_pulses_by_interval(
 
     """
     pulses_by_interval = []
-    active_pulses = set()
+    # A dictionary keeps the pulses in order, so that they are always stacked in the same order.
+    active_pulses: dict[str, None] = {}
     last_time = None
 
     for pulse in sorted_pulses:
@@ -158,16 +159,16 @@ def _construct_pulses_by_interval(
 
         if last_time is None:
             last_time = time
-            active_pulses.add(key)
+            active_pulses[key] = None
         else:
             if time > last_time:
                 if active_pulses:
-                    pulses_by_interval.append(PulseInterval(last_time, time, active_pulses.copy()))
+                    pulses_by_interval.append(PulseInterval(last_time, time, list(active_pulses)))
                 last_time = time
             if is_end:
-                active_pulses.remove(key)
+                del active_pulses[key]
             else:
-                active_pulses.add(key)
+                active_pulses[key] = None
 
     return pulses_by_interval
 
-- 
2.43.0


From 09dc7035649cd6aa9f42f045c892f275a0099e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:49 +0000
Subject: [PATCH 31/48] fix: operations that differ in -1 and -2 only are
 different operations

---
 quantify_scheduler/helpers/collections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index 9e48ca7..d25467d 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -47,6 +47,10 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
         tuple_of_hashes = ((key, make_hash(val)) for key, val in obj.items())
         return hash(frozenset(sorted(tuple_of_hashes)))
 
+    if isinstance(obj, (int, float, complex)):
+        # Python gives -1 and -2 the same hash.
+        return hash((obj, -obj))
+
     return hash(obj)
 
 
-- 
2.43.0


From bb37bd209dd34664b945eaf3dbecfdf6f12cdd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 32/48] fix: numpy scalars and the types of arrays survive
 serialization

---
 quantify_scheduler/json_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index fa85b92..2c3023b 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -218,7 +218,7 @@ class SchedulerJSONDecoder(json.JSONDecoder):
 
             if "mode" in obj and obj["mode"] == "__init__":
                 if class_type == np.ndarray:
-                    return np.array(obj["data"])
+                    return np.array(obj["data"], dtype=obj.get("dtype"))
                 elif issubclass(class_type, Instrument):
                     return class_type(**obj["data"])
                 else:
@@ -393,12 +393,19 @@ class SchedulerJSONEncoder(json.JSONEncoder):
                     "mode": "__init__",
                     "data": str(o),
                 }
+            elif isinstance(o, np.generic):
+                # The other numpy scalars are written as the python objects of the same value.
+                return o.item()
             elif isinstance(o, (np.ndarray,)):
-                return {
+                state = {
                     "deserialization_type": type(o).__name__,
                     "mode": "__init__",
-                    "data": list(o),
+                    "data": list(o) if o.ndim else o.item(),
                 }
+                if np.array(o.tolist()).dtype != o.dtype:
+                    # Reading the data would result in another type of array.
+                    state["dtype"] = str(o.dtype)
+                return state
             elif o in DEFAULT_TYPES:
                 assert isinstance(o, type)
                 return {"deserialization_type": o.__name__, "mode": "type"}
-- 
2.43.0


From de74fb4145167b77108b4304f0b50155fe6bae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 33/48] fix: inline Q1ASM operations can be read back

---
 .../backends/qblox/operations/inline_q1asm.py | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
index 96d2e02..fcb571d 100644
--- a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
+++ b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
@@ -122,6 +122,28 @@ class InlineQ1ASM(Operation):
             parameter_list.append(f"{parameter}={cur_atr}")
         return f"{self._name}({', '.join(parameter_list)})"
 
+    def __getstate__(self) -> dict[str, object]:
+        # Unlike other operations, the information is not in the `data` dictionary.
+        return {
+            **super().__getstate__(),
+            "program": self.program,
+            "duration": self._duration,
+            "port": self.port,
+            "clock": self.clock,
+            "waveforms": self.waveforms,
+            "safe_labels": self.safe_labels,
+        }
+
+    def __setstate__(self, state: dict) -> None:
+        self._name = self.__class__.__name__
+        self.program = state["program"]
+        self._duration = state["duration"]
+        self.port = state["port"]
+        self.clock = state["clock"]
+        self.waveforms = state["waveforms"]
+        self.safe_labels = state["safe_labels"]
+        super().__setstate__(state)
+
     # TODO remove once UserDict is removed as superclass
     def __deepcopy__(self, memo: dict) -> InlineQ1ASM:
         """Make a deepcopy of this object."""
-- 
2.43.0


From f11efe04f1201b2ca4140218d0ca4e67c4220faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 34/48] fix: resources are compared by their contents

---
 quantify_scheduler/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/resources.py b/quantify_scheduler/resources.py
index f913125..bde5da3 100644
--- a/quantify_scheduler/resources.py
+++ b/quantify_scheduler/resources.py
@@ -51,7 +51,7 @@ class Resource(UserDict):
         :
 
         """
-        return repr(self) == repr(other)
+        return self.data == (other.data if isinstance(other, UserDict) else other)
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From bfbd5008db12f8bbed68e5be5ffe3dd0ca486ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 35/48] fix: acquisitions that were read back can be printed

---
 quantify_scheduler/operations/acquisition_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/operations/acquisition_library.py b/quantify_scheduler/operations/acquisition_library.py
index e2ef5bd..1389744 100644
--- a/quantify_scheduler/operations/acquisition_library.py
+++ b/quantify_scheduler/operations/acquisition_library.py
@@ -643,7 +643,7 @@ class NumericalSeparatedWeightedIntegration(WeightedIntegratedSeparated):
         acq_channel = acq_info["acq_channel"]
         coords = acq_info["coords"]
         acq_index = acq_info["acq_index"]
-        bin_mode = acq_info["bin_mode"].value
+        bin_mode = BinMode(acq_info["bin_mode"]).value
         phase = acq_info["phase"]
         t0 = acq_info["t0"]
 
@@ -1530,7 +1530,7 @@ class DualThresholdedTriggerCount(Acquisition):
         acq_info["threshold_high"] = acq_info["thresholded_trigger_count"]["threshold_high"]
         # Pyright thinks custom StrEnum is not iterable.
         for suffix in DualThresholdedTriggerCountLabels:  # type: ignore
-            acq_info[f"label_{suffix}"] = acq_info[f"feedback_trigger_label_{suffix}"]
+            acq_info[f"label_{suffix}"] = acq_info["feedback_trigger_labels"][suffix]
         return self._get_signature(acq_info)
 
 
-- 
2.43.0


From 61852d6d9f5ccbe2523f7297fd37fef691e16f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 36/48] fix: hardware configurations may have explicitly empty
 options

---
 quantify_scheduler/backends/qblox_backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 270cb94..bb5000e 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1055,6 +1055,8 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
 
         options_by_portclock: dict[str, dict[str, Any]] = {}
         for option, pc_to_value_map in self.hardware_options.model_dump(exclude_unset=True).items():
+            if pc_to_value_map is None:
+                continue
             for pc, value in pc_to_value_map.items():
                 options_by_portclock.setdefault(pc, {})[option] = value
 
@@ -1370,7 +1372,10 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
             )
             hardware_description = {}
             for description in self.hardware_description.model_fields_set:
-                if description == path.channel_name:
+                if (
+                    description == path.channel_name
+                    and getattr(self.hardware_description, description) is not None
+                ):
                     hardware_description = getattr(
                         self.hardware_description,
                         description,
@@ -1833,6 +1838,8 @@ class _ClusterCompilationConfig(DataStructure):
         }
 
         for option, values in self.hardware_options.model_dump(exclude_unset=True).items():
+            if values is None:
+                continue
             for pc, option_value in values.items():
                 module_idx = self.portclock_to_path[pc].module_idx
 
-- 
2.43.0


From 5d2033bc467634f8ac978f1526ca202d08f8ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 37/48] fix: a failed initialization of a gettable does not
 leave an earlier one valid

---
 quantify_scheduler/gettables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/gettables.py b/quantify_scheduler/gettables.py
index 1b3a324..be5d337 100644
--- a/quantify_scheduler/gettables.py
+++ b/quantify_scheduler/gettables.py
@@ -183,6 +183,8 @@ class ScheduleGettable:
         hardware using the instrument coordinator.
         """
         logger.debug("Initializing schedule gettable.")
+        # If anything fails below, the next call of `get` may not run what is on the hardware.
+        self.is_initialized = False
         self._evaluated_sched_kwargs = _evaluate_parameter_dict(self.schedule_kwargs)
 
         # generate a schedule using the evaluated keyword arguments dict
-- 
2.43.0


From b2a3c5f8c90c71045dacd6fd18c272c73a348bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 38/48] fix: profiled gettables return the compiled schedule
 and stop like others

---
 quantify_scheduler/gettables_profiled.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/gettables_profiled.py b/quantify_scheduler/gettables_profiled.py
index 3cb2981..37287eb 100644
--- a/quantify_scheduler/gettables_profiled.py
+++ b/quantify_scheduler/gettables_profiled.py
@@ -124,8 +124,8 @@ class ProfiledInstrumentCoordinator(InstrumentCoordinator):
         self.parent_ic.start()
 
     @profiler
-    def stop(self, allow_failure: bool = False) -> None:  # noqa: ARG002 Not used
-        self.parent_ic.stop()
+    def stop(self, allow_failure: bool = False) -> None:
+        self.parent_ic.stop(allow_failure=allow_failure)
 
     @profiler
     def retrieve_acquisition(self) -> Dataset:
@@ -159,9 +159,9 @@ class ProfiledScheduleGettable(ScheduleGettable):
         self.quantum_device.instr_instrument_coordinator(self.profiled_instr_coordinator.name)
 
     @profiler
-    def compile(self) -> None:
+    def compile(self) -> CompiledSchedule:
         """Overwrite compile step for profiling."""
-        super().compile()
+        return super().compile()
 
     def close(self) -> None:
         """Cleanup new profiling instruments to avoid future conflicts."""
-- 
2.43.0


From b674791daba09b65363bb2dd417a960e97744254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 39/48] fix: serializing a reference magnitude does not change
 it

---
 quantify_scheduler/operations/pulse_library.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/operations/pulse_library.py b/quantify_scheduler/operations/pulse_library.py
index 747bbd2..3aa7ae1 100644
--- a/quantify_scheduler/operations/pulse_library.py
+++ b/quantify_scheduler/operations/pulse_library.py
@@ -40,10 +40,12 @@ class ReferenceMagnitude:
         self.value = state["value"]
         self.unit = state["unit"]
 
-    def __getstate__(self) -> None:
-        dtype = export_python_object_to_path_string(self.__class__)
-        self.__dict__["deserialization_type"] = dtype
-        return self.__dict__
+    def __getstate__(self) -> dict[str, Any]:
+        return {
+            "deserialization_type": export_python_object_to_path_string(self.__class__),
+            "value": self.value,
+            "unit": self.unit,
+        }
 
 
 class ShiftClockPhase(Operation):
-- 
2.43.0


From c782a7e95e48ae17cc6eb84d3e4bf8b745015104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 40/48] fix: schedules with window operations can be compiled

---
 quantify_scheduler/operations/pulse_library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantify_scheduler/operations/pulse_library.py b/quantify_scheduler/operations/pulse_library.py
index 3aa7ae1..ecd6a32 100644
--- a/quantify_scheduler/operations/pulse_library.py
+++ b/quantify_scheduler/operations/pulse_library.py
@@ -1023,6 +1023,7 @@ class WindowOperation(Operation):
                 "window_name": window_name,
                 "duration": duration,
                 "t0": t0,
+                "clock": BasebandClockResource.IDENTITY,
                 "port": None,
             }
         ]
-- 
2.43.0


From c0a3a77eab959abe13889fc9091bd6818ac4e556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 41/48] fix: pulse diagrams show offsets and cut pulses as they
 are, and leave the schedule as it is

---
 .../schedules/_visualization/pulse_diagram.py | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index 17f9aa6..1ad8d0b 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -126,7 +126,12 @@ def get_sampled_pulses_from_voltage_offsets(
         for clock, info_list in offset_info.items():
             time: list[float] = []
             signal: list[float] = []
-            for info in info_list:
+            for info in sorted(info_list, key=lambda info: info.time):
+                offset = info.op_info["offset_path_I"] + 1j * info.op_info["offset_path_Q"]
+                if len(time) > 0 and info.time - 0.01 / sampling_rate <= time[-1]:
+                    # Of the offsets set at the same time, the last one counts.
+                    signal[-1] = offset
+                    continue
                 if len(time) > 0:
                     # Each offset is a point, so the previous offset is extended to a
                     # line before adding the next.
@@ -135,7 +140,7 @@ def get_sampled_pulses_from_voltage_offsets(
                     time.append(info.time - 0.01 / sampling_rate)
                     signal.append(signal[-1])
                 time.append(info.time)
-                signal.append(info.op_info["offset_path_I"] + 1j * info.op_info["offset_path_Q"])
+                signal.append(offset)
             if signal[-1] != 0:
                 # If the offset is not 0, let it run to the end of the schedule.
                 time.append(schedule.duration / schedule.repetitions)
@@ -143,7 +148,7 @@ def get_sampled_pulses_from_voltage_offsets(
 
             # Filter in time: Keep one point before and one point after the limit (if
             # possible).
-            start_idx = next(i for i, v in enumerate(time) if v > x_min)
+            start_idx = next((i for i, v in enumerate(time) if v > x_min), len(time))
             if start_idx > 0:
                 start_idx -= 1
             try:
@@ -225,7 +230,8 @@ def get_sampled_pulses(
         sampled_pulses = defaultdict(list)
     for port, info_list in pulse_infos.items():
         for info in info_list:
-            t0 = info.time
+            pulse_start = info.time
+            t0 = pulse_start
             t1 = t0 + info.op_info["duration"]
 
             if t1 < x_min or t0 > x_max:
@@ -237,21 +243,23 @@ def get_sampled_pulses(
             if len(t) == 0:
                 continue
 
+            pulse_info = info.op_info
             if (
-                info.op_info["wf_func"]
+                pulse_info["wf_func"]
                 == "quantify_scheduler.waveforms.interpolated_complex_waveform"
             ):
-                info.op_info["t_samples"] = (
-                    np.asarray(info.op_info["t_samples"]) - info.op_info["t_samples"][0]
-                )
+                pulse_info = {
+                    **pulse_info,
+                    "t_samples": np.asarray(pulse_info["t_samples"]) - pulse_info["t_samples"][0],
+                }
 
             # Add the final datapoint for nicer plots
             t = np.append(t, t[-1] + 0.99 / sampling_rate)
 
             waveform = exec_waveform_function(
                 wf_func=info.op_info["wf_func"],
-                t=t - t[0],
-                pulse_info=info.op_info,
+                t=t - pulse_start,
+                pulse_info=pulse_info,
             )
 
             # Add 0 amplitude points before and after the pulse such that interpolation
-- 
2.43.0


From 588644f61e9ab279e6eb2c569772ab977bcd3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:53 +0000
Subject: [PATCH 42/48] fix: numbers of numpy have the hashes of the same
 python numbers

---
 quantify_scheduler/helpers/collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index d25467d..e0e47a4 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -47,6 +47,9 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
         tuple_of_hashes = ((key, make_hash(val)) for key, val in obj.items())
         return hash(frozenset(sorted(tuple_of_hashes)))
 
+    if isinstance(obj, np.generic):
+        obj = obj.item()
+
     if isinstance(obj, (int, float, complex)):
         # Python gives -1 and -2 the same hash.
         return hash((obj, -obj))
-- 
2.43.0


From bedabc96b88a3f32a18b3a5c3d5e7da15427b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:30 +0000
Subject: [PATCH 43/48] fix: port-clocks on one port do not share their channel
 path

---
 quantify_scheduler/backends/qblox_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index bb5000e..443cede 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1205,8 +1205,9 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                 raise KeyError(f"{port} was not found in the connectivity.")
             for port_nbr in self.connectivity.graph.neighbors(port):
                 if is_path(port_nbr):
-                    path = ChannelPath.from_path(port_nbr)
                     for clock in clocks:
+                        # Every port-clock has its own path: paths are extended below.
+                        path = ChannelPath.from_path(port_nbr)
                         repeated_pc = False
                         pc = f"{port}-{clock}"
                         # Add extra channel name for `Measure` operation. This takes place after
-- 
2.43.0


From 06f212b27c44d85e17493444d2a085924c053560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:30 +0000
Subject: [PATCH 44/48] fix: range and conflict checks of FIR filters and of
 distortions per output

---
 .../backends/qblox/instrument_compilers.py    | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index ef3631d..f1c6e35 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -212,7 +212,7 @@ class QCMCompiler(BasebandModuleCompiler):
                                 marker_debug_mode_enable,
                             )
                     if key == "fir_coeffs" and value is not None:
-                        if len(value) != 32 or np.any(value) < -2 or np.any(value) >= 2:
+                        if len(value) != 32 or np.min(value) < -2 or np.max(value) >= 2:
                             raise ValueError(
                                 "The FIR filter has 32 coefficients with a range of [-2,2) each."
                             )
@@ -237,30 +237,24 @@ class QCMCompiler(BasebandModuleCompiler):
                             if channel_description is not None
                             else False
                         )
-                        if module_distortion_configs.get(output_number) is None:
-                            if isinstance(correction_cfg, HardwareDistortionCorrection):
-                                output_number = int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg,
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                            elif isinstance(correction_cfg, list):
-                                output_number = 2 * int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[0],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                                output_number += 1
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[1],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
+                        if isinstance(correction_cfg, list):
+                            corrections_per_output = {
+                                2 * output_number: correction_cfg[0],
+                                2 * output_number + 1: correction_cfg[1],
+                            }
                         else:
-                            raise ValueError(
-                                f"Attempting to set distortion corrections to"
-                                f"{output_name} using portclock {portclock}, while it"
-                                f"has previously already been set on this output."
-                            )
+                            corrections_per_output = {output_number: correction_cfg}
+                        for output, correction in corrections_per_output.items():
+                            if output in module_distortion_configs:
+                                raise ValueError(
+                                    f"Attempting to set distortion corrections to "
+                                    f"{output_name} using portclock {portclock}, while it "
+                                    f"has previously already been set on this output."
+                                )
+                            module_distortion_configs[output] = {
+                                "distortion_corrections": correction,
+                                "marker_debug_mode_enable": marker_debug_mode_enable,
+                            }
         return module_distortion_configs
 
     def _configure_filter(
-- 
2.43.0


From 0fe1d6038ec6f079a67dd071d9bf1b6f7a9a65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:30 +0000
Subject: [PATCH 45/48] fix: mixer offsets and attenuations of port-clocks that
 share an output do not overwrite each other

---
 quantify_scheduler/backends/qblox/analog.py | 177 ++++++++++----------
 1 file changed, 90 insertions(+), 87 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index dbade32..7208729 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -25,6 +25,7 @@ from quantify_scheduler.backends.qblox.compiler_abc import (
 from quantify_scheduler.backends.qblox.enums import (
     ChannelMode,
     DistortionCorrectionLatencyEnum,
+    LoCalEnum,
     QbloxFilterConfig,
     QbloxFilterMarkerDelay,
 )
@@ -762,57 +763,76 @@ class AnalogModuleCompiler(ClusterModuleCompiler, ABC):
         Configures offset of input, uses calc_from_units_volt found in helper file.
         Raises an exception if a value outside the accepted voltage range is given.
         """
+        all_mixer_corrections = self.instrument_cfg.hardware_options.mixer_corrections
+        if all_mixer_corrections is None:
+            return
+
+        voltage_range = self.static_hw_properties.mixer_dc_offset_range
         supported_outputs = ("complex_output_0", "complex_output_1")
-        for output_idx, output_label in enumerate(supported_outputs):
-            for portclock, path in self.portclock_to_path.items():
-                if output_label == path.channel_name:
-                    if self.instrument_cfg.hardware_options.mixer_corrections is not None:
-                        mixer_corrections = (
-                            self.instrument_cfg.hardware_options.mixer_corrections.get(
-                                portclock, None
-                            )
-                            if output_label == path.channel_name
-                            else None
-                        )
-                    else:
-                        mixer_corrections = None
-
-                    if mixer_corrections:
-                        offset_i = mixer_corrections.dc_offset_i
-                        offset_q = mixer_corrections.dc_offset_q
-                        voltage_range = self.static_hw_properties.mixer_dc_offset_range
-                        if output_idx == 0:
-                            self._settings.offset_ch0_path_I = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_I",
-                                offset_i,
-                            )
-                            self._settings.offset_ch0_path_Q = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_Q",
-                                offset_q,
-                            )
-                            self._settings.out0_lo_freq_cal_type_default = (
-                                mixer_corrections.auto_lo_cal
-                            )
-                        else:
-                            self._settings.offset_ch1_path_I = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_I",
-                                offset_i,
-                            )
-                            self._settings.offset_ch1_path_Q = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_Q",
-                                offset_q,
-                            )
-                            self._settings.out1_lo_freq_cal_type_default = (
-                                mixer_corrections.auto_lo_cal
-                            )
+        for portclock, path in self.portclock_to_path.items():
+            mixer_corrections = all_mixer_corrections.get(portclock)
+            if path.channel_name not in supported_outputs or mixer_corrections is None:
+                continue
+            output_idx = supported_outputs.index(path.channel_name)
+
+            for name, value in (
+                ("I", mixer_corrections.dc_offset_i),
+                ("Q", mixer_corrections.dc_offset_q),
+            ):
+                offset = helpers.calc_from_units_volt(
+                    voltage_range,
+                    self.name,
+                    f"dc_mixer_offset_{name}",
+                    value,
+                )
+                if offset is not None:
+                    self._assign_shared_setting(
+                        f"offset_ch{output_idx}_path_{name}", offset, portclock
+                    )
+            if mixer_corrections.auto_lo_cal != LoCalEnum.OFF:
+                self._assign_shared_setting(
+                    f"out{output_idx}_lo_freq_cal_type_default",
+                    mixer_corrections.auto_lo_cal,
+                    portclock,
+                    unset=LoCalEnum.OFF,
+                )
+
+    def _assign_shared_setting(
+        self,
+        setting: str,
+        value: object,
+        portclock: str,
+        unset: object = None,
+    ) -> None:
+        """
+        Assign a module setting that several port-clocks share.
+
+        Parameters
+        ----------
+        setting
+            The name of the setting.
+        value
+            The value that the hardware options give for the port-clock.
+        portclock
+            The port-clock.
+        unset
+            The value of a setting that has not been assigned.
+
+        Raises
+        ------
+        ValueError
+            If another port-clock has a different value.
+
+        """
+        previous_value = getattr(self._settings, setting)
+        if previous_value != unset and previous_value != value:
+            raise ValueError(
+                f"Found non-unique values {previous_value} and {value} (the latter for "
+                f"port-clock '{portclock}') for '{setting}' on module {self.name}. Please ensure "
+                f"that the hardware options are the same for all port-clock combinations that "
+                f"share an input or output of this module."
+            )
+        setattr(self._settings, setting, value)
 
     def _configure_distortion_correction_latency_compensations(
         self, distortion_configs: dict[int, Any] | None = None
@@ -1220,44 +1240,27 @@ class RFModuleCompiler(AnalogModuleCompiler, ABC):
                 raise ValueError(f'Trying to set "{label}" to non-integer value {value}')
             return int(value)
 
-        in0_att = out0_att = out1_att = None
+        input_att_cfg = self.instrument_cfg.hardware_options.input_att or {}
+        output_att_cfg = self.instrument_cfg.hardware_options.output_att or {}
+        in0_att_channel_name = None
 
-        input_att_cfg = self.instrument_cfg.hardware_options.input_att
-
-        output_att_cfg = self.instrument_cfg.hardware_options.output_att
-
-        for (
-            portclock,
-            path,
-        ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_input_0" and input_att_cfg is not None:
-                in0_att = input_att_cfg.get(portclock)
-
-        for (
-            portclock,
-            path,
-        ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_output_0":
-                if input_att_cfg is not None:
-                    in0_att_from_output = input_att_cfg.get(portclock)
-                    if in0_att_from_output is not None:
-                        if in0_att is not None:
-                            raise ValueError(
-                                f"'input_att' is defined for both 'complex_input_0' and "
-                                f"'complex_output_0' on module '{self.name}', which is prohibited. "
-                                f"Make sure you define it at a single place."
-                            )
-                        in0_att = in0_att_from_output
-
-                if output_att_cfg is not None:
-                    out0_att = output_att_cfg.get(portclock)
-
-            if path.channel_name == "complex_output_1" and output_att_cfg is not None:
-                out1_att = output_att_cfg.get(portclock)
-
-        self._settings.in0_att = _convert_to_int(in0_att, label="in0_att")
-        self._settings.out0_att = _convert_to_int(out0_att, label="out0_att")
-        self._settings.out1_att = _convert_to_int(out1_att, label="out1_att")
+        for portclock, path in self.instrument_cfg.portclock_to_path.items():
+            in0_att = _convert_to_int(input_att_cfg.get(portclock), label="in0_att")
+            if in0_att is not None and path.channel_name in ("complex_input_0", "complex_output_0"):
+                if in0_att_channel_name not in (None, path.channel_name):
+                    raise ValueError(
+                        f"'input_att' is defined for both 'complex_input_0' and "
+                        f"'complex_output_0' on module '{self.name}', which is prohibited. "
+                        f"Make sure you define it at a single place."
+                    )
+                in0_att_channel_name = path.channel_name
+                self._assign_shared_setting("in0_att", in0_att, portclock)
+
+            if path.channel_name.startswith("complex_output_"):
+                setting = f"out{path.channel_idx}_att"
+                out_att = _convert_to_int(output_att_cfg.get(portclock), label=setting)
+                if out_att is not None:
+                    self._assign_shared_setting(setting, out_att, portclock)
 
     def _configure_dc_latency_comp_for_marker(self, output: int, dc_comp: int) -> None:
         output += 2  # In RF modules, the two marker indices are 2 & 3.
-- 
2.43.0


From 6bc00ff33462deabf8e9753bae5f68bcb85c9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:30 +0000
Subject: [PATCH 46/48] fix: keep the sideband calibration while the frequency
 is unchanged; QRC output attenuation

---
 .../instrument_coordinator/components/qblox.py       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 2170b8a..659434d 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -556,11 +556,11 @@ class _AnalogModuleComponent(_ModuleComponentBase):
     def _configure_nco_mixer_calibration(
         self, seq_idx: int, settings: AnalogSequencerSettings
     ) -> None:
-        if (
-            settings.auto_sideband_cal == SidebandCalEnum.ON_INTERM_FREQ_CHANGE
-            and self._nco_frequency_changed[seq_idx]
-        ):
-            self.instrument.sequencers[seq_idx].sideband_cal()
+        if settings.auto_sideband_cal == SidebandCalEnum.ON_INTERM_FREQ_CHANGE:
+            # If the frequency did not change, the results of the last calibration
+            # are kept.
+            if self._nco_frequency_changed[seq_idx]:
+                self.instrument.sequencers[seq_idx].sideband_cal()
         else:
             if settings.mixer_corr_phase_offset_degree is not None:
                 self._set_parameter(
@@ -1373,7 +1373,7 @@ class _QRCComponent(_RFComponent, _AnalogReadoutComponent):
         # configure attenuation
 
         for i in range(6):
-            if out_att := getattr(settings, f"out{i}_att") is not None:
+            if (out_att := getattr(settings, f"out{i}_att")) is not None:
                 self._set_parameter(self.instrument, f"out{i}_att", out_att)
 
     def _configure_lo_settings(
-- 
2.43.0


From 6c71f508976b70a395635882805bf745b0e6b55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:30 +0000
Subject: [PATCH 47/48] fix: derive time-tag settings from the acquisitions
 they belong to

Mixing trigger counts or traces with time tags on one port-clock raised a KeyError, and the
trace duration was taken from the first acquisition even if that was not the trace.
---
 quantify_scheduler/backends/qblox/timetag.py | 36 ++++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/timetag.py b/quantify_scheduler/backends/qblox/timetag.py
index 8f3e511..3f5f349 100644
--- a/quantify_scheduler/backends/qblox/timetag.py
+++ b/quantify_scheduler/backends/qblox/timetag.py
@@ -304,28 +304,50 @@ class TimetagSequencerCompiler(SequencerCompiler):
             self._settings.scope_trace_type = TimetagTraceType.SCOPE
             # Trace acquisitions have bin mode FIRST, meaning only the first acquisition
             # has any effect. Therefore we take the duration from the first acquisition.
-            self._settings.trace_acq_duration = round(acquisitions[0].operation_info.duration * 1e9)
+            first_trace = next(
+                acq for acq in acquisitions if acq.operation_info.data["protocol"] == "Trace"
+            )
+            self._settings.trace_acq_duration = round(first_trace.operation_info.duration * 1e9)
         elif "TimetagTrace" in unique_protocols:
             self._settings.scope_trace_type = TimetagTraceType.TIMETAG
 
-        if ("Timetag" in unique_protocols) or ("TimetagTrace" in unique_protocols):
+        timetag_acquisitions = [
+            acq
+            for acq in acquisitions
+            if acq.operation_info.data["protocol"] in ("Timetag", "TimetagTrace")
+        ]
+        if len(timetag_acquisitions) > 0:
             self._settings.time_source = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_source"] for acq in acquisitions),
+                values=(acq.operation_info.data["time_source"] for acq in timetag_acquisitions),
                 setting_name="time_source",
             )
             self._settings.time_ref = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_ref"] for acq in acquisitions),
+                values=(acq.operation_info.data["time_ref"] for acq in timetag_acquisitions),
                 setting_name="time_ref",
             )
             self._settings.time_ref_channel = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_ref_channel"] for acq in acquisitions),
+                values=(
+                    acq.operation_info.data["time_ref_channel"] for acq in timetag_acquisitions
+                ),
                 setting_name="time_ref_channel",
             )
 
         if "ThresholdedTriggerCount" in unique_protocols:
-            self._prepare_thresholded_trigger_count_settings(acquisitions)
+            self._prepare_thresholded_trigger_count_settings(
+                [
+                    acq
+                    for acq in acquisitions
+                    if acq.operation_info.data["protocol"] == "ThresholdedTriggerCount"
+                ]
+            )
         elif "DualThresholdedTriggerCount" in unique_protocols:
-            self._prepare_dual_thresholded_trigger_count_settings(acquisitions)
+            self._prepare_dual_thresholded_trigger_count_settings(
+                [
+                    acq
+                    for acq in acquisitions
+                    if acq.operation_info.data["protocol"] == "DualThresholdedTriggerCount"
+                ]
+            )
 
     def _prepare_thresholded_trigger_count_settings(
         self, acquisitions: list[IOperationStrategy]
-- 
2.43.0


From 77f86e7cfdaceaf0a7453d7e4b205b5bd088b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:30 +0000
Subject: [PATCH 48/48] fix: thresholded trigger counts without a feedback
 label on a QTM

They raised a KeyError for 'feedback_trigger_address'; like on other modules, no trigger is written.
---
 quantify_scheduler/backends/qblox/timetag.py | 23 ++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/timetag.py b/quantify_scheduler/backends/qblox/timetag.py
index 3f5f349..1de0202 100644
--- a/quantify_scheduler/backends/qblox/timetag.py
+++ b/quantify_scheduler/backends/qblox/timetag.py
@@ -369,15 +369,20 @@ class TimetagSequencerCompiler(SequencerCompiler):
         # We ignore None because it does not interfere with other acquisitions/conditionals.
         # This is because a LatchReset is used for every thresholded acq with a not-None
         # address.
-        address = self._get_unique_value_or_raise(
-            values=(
-                acq.operation_info.data["feedback_trigger_address"]
-                for acq in acquisitions
-                if acq.operation_info.data["feedback_trigger_address"] is not None
-            ),
-            setting_name="feedback_trigger_address",
-        )
-        self._settings.thresholded_acq_trigger_write_en = True
+        address_set = {
+            acq.operation_info.data.get("feedback_trigger_address")
+            for acq in acquisitions
+            if acq.operation_info.data.get("feedback_trigger_address") is not None
+        }
+        if len(address_set) == 0:
+            self._settings.thresholded_acq_trigger_write_en = False
+            address = 0
+        else:
+            address = self._get_unique_value_or_raise(
+                values=address_set,
+                setting_name="feedback_trigger_address",
+            )
+            self._settings.thresholded_acq_trigger_write_en = True
         # For a ThresholdedTriggerCount with one threshold, both the low and high
         # thresholds are the same.
         self._settings.thresholded_acq_trigger_write_threshold_low = threshold
-- 
2.43.0

