------------------------------- MODULE Store -------------------------------
(* Objects (schedules, operations, configurations, compiled schedules), the *)
(* documents that they are written to, and the objects that are read back.  *)
(*                                                                          *)
(* What an object contains is determined by what it was made of (origin)    *)
(* and how often it has been extended since. Writing leaves the object as   *)
(* it is, a document keeps the content of the moment it was written, and    *)
(* reading gives an object of its own with that content: extending it later *)
(* changes neither the document nor any other object.                       *)
EXTENDS Replay
CONSTANTS NS, ND, MaxGrow
Slots == 1 .. NS
Docs == 1 .. ND
CanGrow == {1, 2, 3}       \* origins of which objects can be extended
CanCompile == {1, 2, 3, 5} \* origins of which objects can be compiled (or used to compile with)
Ways == {"text", "file", "stamped", "dict", "nested", "pickle"}
NoDoc == <<0, 0>>
VARIABLES obj, doc
vars == <<obj, doc>>
Init == ReplayInit /\ obj = [o \in Slots |-> <<o, 0>>] /\ doc = [d \in Docs |-> NoDoc]
Rec(do, o, d, via) == [do |-> do, o |-> o, d |-> d, via |-> via]
Written == {d \in Docs : doc[d] # NoDoc}
Write == \E o \in Pick(Slots), d \in Pick(Docs), via \in Pick(Ways) :
           /\ Step(Rec("write", o, d, via))
           /\ doc' = [doc EXCEPT ![d] = obj[o]]
           /\ UNCHANGED obj
Read == Written # {} /\ \E d \in Pick(Written), o \in Pick(Slots) :
           /\ Step(Rec("read", o, d, ""))
           /\ obj' = [obj EXCEPT ![o] = doc[d]]
           /\ UNCHANGED doc
\* o becomes a copy of the object in slot d
Copy == Seldom /\ \E o \in Pick(Slots), p \in Pick(Slots), via \in Pick({"deep", "shallow"}) :
           /\ (via = "deep" \/ obj[p][1] \notin CanGrow)
           /\ Step(Rec("copy", o, p, via))
           /\ obj' = [obj EXCEPT ![o] = obj[p]]
           /\ UNCHANGED doc
Growing == {o \in Slots : obj[o][1] \in CanGrow /\ obj[o][2] < MaxGrow}
Grow == Growing # {} /\ Seldom /\ \E o \in Pick(Growing) :
           /\ Step(Rec("grow", o, 0, ""))
           /\ obj' = [obj EXCEPT ![o][2] = @ + 1]
           /\ UNCHANGED doc
Compiling == {o \in Slots : obj[o][1] \in CanCompile}
Compile == Compiling # {} /\ \E o \in Pick(Compiling) :
           /\ Step(Rec("compile", o, 0, ""))
           /\ UNCHANGED vars
Look == Step(Rec("look", 0, 0, "")) /\ Seldom /\ UNCHANGED vars
Next == Write \/ Read \/ Copy \/ Grow \/ Compile \/ Look \/ Finish(vars)
Spec == Init /\ [][Next]_<<vars, h, done>>
TypeOK == /\ \A o \in Slots : obj[o][1] \in Slots /\ obj[o][2] \in 0 .. MaxGrow
          /\ \A d \in Docs : doc[d] = NoDoc \/ doc[d][1] \in Slots
\* only writing a document changes it, at most one object changes in a step,
\* and an object grows or becomes the content of a document or of another object
Kept == [][/\ \A d \in Docs : doc'[d] # doc[d] => \E o \in Slots : doc'[d] = obj[o] /\ obj'[o] = obj[o]
           /\ Cardinality({o \in Slots : obj'[o] # obj[o]}) <= 1
           /\ \A o \in Slots : obj'[o] # obj[o] =>
                (\/ obj'[o] = <<obj[o][1], obj[o][2] + 1>>
                 \/ \E d \in Written : obj'[o] = doc[d]
                 \/ \E p \in Slots : obj'[o] = obj[p])]_vars
=============================================================================
