------------------------------ MODULE Replay ------------------------------
(* Behaviours for replay: a module EXTENDing this one records every step in *)
(* the variable h (a sequence of records [do, args.., res, ..]) and prints  *)
(* it when it has Len steps (TLC -simulate). In exhaustive runs Record is   *)
(* FALSE, h stays empty and every choice of an argument is explored.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
ToSet(s) == {s[i] : i \in DOMAIN s}
CONSTANTS Record, Len0
VARIABLES h, done
\* arguments of an action: one at random in simulations, all of them otherwise
\* (the dependence on h keeps TLC from evaluating it once and for all)
Random(S) == RandomElement({x \in S : Len(h) >= 0})
Pick(S) == IF Record THEN {Random(S)} ELSE S
\* actions that a simulation should take less often
Seldom == ~Record \/ Random(1 .. 5) = 1
ReplayInit == h = <<>> /\ done = FALSE
Step(r) == (IF Record THEN Len(h) < Len0 /\ h' = Append(h, r) ELSE h' = h) /\ done' = done
Finish(vars) == /\ Record /\ Len(h) = Len0 /\ ~done /\ done' = TRUE
                /\ PrintT("TRACE|" \o ToJson(h)) /\ UNCHANGED <<h, vars>>
=============================================================================
