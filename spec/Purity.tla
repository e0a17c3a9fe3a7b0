------------------------------ MODULE Purity ------------------------------
(* What the result of a compilation may depend on.                          *)
(*                                                                          *)
(* Schedules hold references to operation objects; objects can be shared    *)
(* between schedules (Objs). A compilation works on a copy of everything    *)
(* that is reachable from the schedule, unless the configuration says that  *)
(* the original need not be kept. The result is a function of the content   *)
(* of the schedule and of the configuration, and of nothing else: not of    *)
(* the compiler object, of earlier compilations or of the process.          *)
EXTENDS Replay
CONSTANTS NC, MaxGrow
\* schedules 1 and 2 share objects, 3 stands alone
Objs == [s \in 1 .. 3 |-> CASE s = 1 -> {1, 2} [] s = 2 -> {2, 3} [] OTHER -> {4}]
Scheds == DOMAIN Objs
AllObjs == UNION {Objs[s] : s \in Scheds}
VARIABLES grown,    \* how many operations have been added to each schedule
          conf,     \* the value of the option of each configuration that changes
          tune,     \* the value of the device parameter that changes
          touched,  \* the objects that a compilation in place has changed
          seen      \* the contents that have been compiled so far
vars == <<grown, conf, tune, touched, seen>>
Init == ReplayInit /\ grown = [s \in Scheds |-> 0] /\ conf = [c \in 1 .. NC |-> 0] /\ tune = 0 /\ touched = {} /\ seen = {}
\* schedules whose objects have been changed by a compilation that did not keep them
Spoilt(s) == Objs[s] \cap touched # {}
Content(s, c) == <<s, grown[s], c, conf[c], tune>>
Rec(do, s, c, k, via) == [do |-> do, s |-> s, c |-> c, k |-> k, via |-> via]
\* via: "kept": the same configuration object every time; "new": generated for this
\* compilation; "own": the compiler generates it; "copy": a copy of the schedule is
\* compiled; "scratch": a copy is compiled that need not be kept
Usable == {s \in Scheds : ~Spoilt(s)}
Compile == Usable # {} /\ \E s \in Pick(Usable), c \in Pick(1 .. NC), k \in Pick(1 .. 2),
              via \in Pick({"kept", "new", "own", "copy", "scratch"}) :
             /\ Step(Rec("compile", s, c, k, via))
             /\ seen' = seen \cup {Content(s, c)}
             /\ UNCHANGED <<grown, conf, tune, touched>>
\* compiled in place: afterwards neither it nor a schedule that shares objects with it is used
InPlace == /\ Seldom /\ Usable # {}
           /\ \E s \in Pick(Usable), c \in Pick(1 .. NC) :
                /\ Step(Rec("inplace", s, c, 1, "new"))
                /\ seen' = seen \cup {Content(s, c)}
                /\ touched' = touched \cup Objs[s]
                /\ UNCHANGED <<grown, conf, tune>>
Grow == /\ Seldom
        /\ \E s \in Pick(Scheds) :
             /\ grown[s] < MaxGrow
             /\ Step(Rec("grow", s, 0, 0, ""))
             /\ grown' = [grown EXCEPT ![s] = @ + 1]
             /\ UNCHANGED <<conf, tune, touched, seen>>
Configure == /\ Seldom
             /\ \E c \in Pick(1 .. NC) :
                  /\ Step(Rec("configure", 0, c, 0, ""))
                  /\ conf' = [conf EXCEPT ![c] = 1 - @]
                  /\ UNCHANGED <<grown, tune, touched, seen>>
Retune == /\ Seldom
          /\ Step(Rec("retune", 0, 0, 0, ""))
          /\ tune' = 1 - tune
          /\ UNCHANGED <<grown, conf, touched, seen>>
\* when every schedule is spoilt
Look == Usable = {} /\ Step(Rec("look", 0, 0, 0, "")) /\ UNCHANGED vars
Next == Compile \/ InPlace \/ Grow \/ Configure \/ Retune \/ Look \/ Finish(vars)
Spec == Init /\ [][Next]_<<vars, h, done>>
\* the alone-standing schedule can only be spoilt by its own compilation; sharing spoils both
SharedFate == (Spoilt(1) /\ touched \cap {1} # {} => Spoilt(2)) /\ (touched \subseteq Objs[3] => ~Spoilt(1) /\ ~Spoilt(2))
TypeOK == touched \subseteq AllObjs /\ \A x \in seen : x[1] \in Scheds /\ x[3] \in 1 .. NC
\* only what is not spoilt has a result, and an option that is set back gives the old content back
Return == [][\A s \in Scheds, c \in 1 .. NC :
              (conf'[c] = conf[c] /\ tune' = tune /\ grown'[s] = grown[s]) => Content(s, c)' = Content(s, c)]_vars

Bound == Cardinality(seen) <= 2
=============================================================================
