------------------------------ MODULE Building ------------------------------
(* Schedules that are put together: operations and other schedules are added *)
(* (by reference) with timing constraints, resources are registered,         *)
(* schedules are renamed and copied. A call that is refused leaves           *)
(* everything as it was; a call on one schedule changes no other, and a copy *)
(* shares nothing with its original.                                         *)
EXTENDS Replay
CONSTANTS NOps, MaxHeap, MaxItems, Clocks
VARIABLES heap
vars == heap
(* heap: sequence of schedules [name, reps, res, items]                      *)
(* res: sequence of [name, freq]; items: sequence of [lab, what, cons]       *)
(* what: [k |-> "op"|"sched"|"loop", i, n] (operation of the pool; schedule  *)
(* i itself, or in a loop of n)                                              *)
(* cons: sequence of [ref, rp, rpn, rel], ref: label ("": none)              *)
Points == IF Record THEN {"", "start", "end"} ELSE {""}
Labels == IF Record THEN {"a", "b", "c", "d"} ELSE {"a"}
Rels == IF Record THEN {0, 4, -8, 20} ELSE {0}
Fresh(n) == "s" \o ToString(n)
\* the names of schedules are all different
New(n) == [name |-> Fresh(n), reps |-> 1, res |-> <<>>, items |-> <<>>]
VARIABLES names,  \* number of names given so far
          orig    \* the schedule of which another is a copy (or itself)
other == <<names, orig>>
Range(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Reach(_, _)
Reach(H, i) == {i} \cup UNION {Reach(H, H[i].items[j].what.i) : j \in {x \in DOMAIN H[i].items : H[i].items[x].what.k # "op"}}
\* a label that was made up: the n-th item of its schedule
Auto(n) == "#" \o ToString(n)
LabelsOf(s) == {heap[s].items[j].lab : j \in DOMAIN heap[s].items}
Content == heap'
Rec(do, s, arg, res) == [do |-> do, s |-> s, arg |-> arg, res |-> res, heap |-> heap']
Init == ReplayInit /\ heap = <<New(1), New(2)>> /\ names = 2 /\ orig = <<1, 2>>
------------------------------------------------------------------------------
Constraint(s) ==
  {[ref |-> r, rp |-> p, rpn |-> q, rel |-> x] :
     r \in {""} \cup LabelsOf(s) \cup (IF Record /\ Random(1 .. 20) = 1 THEN {"nowhere"} ELSE {}), p \in Points, q \in Points, x \in Rels}
Plain == [ref |-> "", rp |-> "", rpn |-> "", rel |-> 0]
AddTo(s, what, lab, c) ==
  LET l == IF lab = "" THEN Auto(Len(heap[s].items) + 1) ELSE lab
      ok == l \notin LabelsOf(s)
  IN  /\ heap' = IF ok THEN [heap EXCEPT ![s].items = Append(@, [lab |-> l, what |-> what, cons |-> <<c>>])] ELSE heap
      /\ Step(Rec("add", s, [what |-> what, lab |-> lab, con |-> c], IF ok THEN "ok" ELSE "ValueError"))
      /\ UNCHANGED other
Whats(s) == [k : {"op"}, i : 1 .. NOps, n : {1}]
\* (a schedule and a copy of it are not added to the same schedule: what is added is known by its content at that time)
Nested(s) == {w \in [k : {"sched", "loop"}, i : DOMAIN heap, n : {1, 2}] : (w.k = "sched" => w.n = 1) /\ s \notin Reach(heap, w.i)
                /\ \A j \in DOMAIN heap[s].items : LET x == heap[s].items[j].what IN x.k = "op" \/ x.i = w.i \/ orig[x.i] # orig[w.i]}
Open == {s \in DOMAIN heap : Len(heap[s].items) < MaxItems}
Add == \E s \in Pick(Open \cup (IF Open = {} THEN DOMAIN heap ELSE {})), lab \in Pick({"", ""} \cup Labels) :
         \E c \in Pick({Plain} \cup Constraint(s)), w \in Pick(Whats(s)) : (Len(heap[s].items) < MaxItems \/ Record) /\ AddTo(s, w, lab, c)
Nest == \E s \in Pick(DOMAIN heap), lab \in Pick({"", ""} \cup Labels) :
          /\ Nested(s) # {} /\ Len(heap[s].items) < MaxItems
          /\ \E c \in Pick({Plain} \cup Constraint(s)), w \in Pick(Nested(s)) : AddTo(s, w, lab, c)
Refused(do, s, arg) == heap' = heap /\ UNCHANGED other /\ Step(Rec(do, s, arg, "ValueError"))
AddWrong == Seldom /\ \E s \in Pick(DOMAIN heap), x \in Pick({"none", "text", "class", "dict"}) : Refused("add-wrong", s, x)
Constrain == \E s \in Pick(DOMAIN heap) : heap[s].items # <<>> /\
               \E j \in Pick(DOMAIN heap[s].items) : \E c \in Pick({[ref |-> r, rp |-> "end", rpn |-> "start", rel |-> 4] :
                                                          r \in IF Record /\ Random(1 .. 20) # 1 THEN {heap[s].items[x].lab : x \in 1 .. j - 1} ELSE LabelsOf(s)}) :
                 /\ Len(heap[s].items[j].cons) < 3
                 /\ heap' = [heap EXCEPT ![s].items[j].cons = Append(@, c)] /\ UNCHANGED other
                 /\ Step(Rec("constrain", s, [j |-> j, con |-> c], "ok"))
Freqs == IF Record THEN {4, 5} ELSE {4}
ResNames(R) == {R[i].name : i \in DOMAIN R}
Defaults == {"cl0.baseband", "digital"}
\* several resources are added one by one
RECURSIVE AddAll(_, _)
AddAll(R, q) == IF q = <<>> \/ Head(q).name \in ResNames(R) \cup Defaults THEN [r |-> R, left |-> q]
                ELSE AddAll(Append(R, Head(q)), Tail(q))
\* mostly, a clock has one frequency
Usual == <<[name |-> "ck1", freq |-> 4], [name |-> "ck2", freq |-> 5]>>
Resources == IF Record /\ ~Seldom THEN Range(Usual) ELSE [name : Clocks \cup (IF Record THEN {"digital"} ELSE {}), freq : Freqs]
AddRes == \E s \in Pick(DOMAIN heap), q \in Pick(IF Record /\ ~Seldom THEN {Usual} ELSE {<<r>> : r \in Resources} \cup (IF Record THEN {<<r, x>> : r \in Resources, x \in Resources} ELSE {})) :
            LET a == AddAll(heap[s].res, q)
            IN  /\ heap' = [heap EXCEPT ![s].res = a.r] /\ UNCHANGED other
                /\ Step(Rec("resources", s, q, IF a.left = <<>> THEN "ok" ELSE "ValueError"))
AddResWrong == Seldom /\ \E s \in Pick(DOMAIN heap), x \in Pick({"none", "text", "operation"}) : Refused("resource-wrong", s, x)
Reps == Seldom /\ \E s \in Pick(DOMAIN heap), v \in Pick({-1, 0, 1, 2, 5}) :
          IF v <= 0 THEN Refused("repetitions", s, v)
          ELSE heap' = [heap EXCEPT ![s].reps = v] /\ UNCHANGED other /\ Step(Rec("repetitions", s, v, "ok"))
Rename == Seldom /\ \E s \in Pick(DOMAIN heap) :
            /\ names' = names + 1 /\ orig' = orig /\ heap' = [heap EXCEPT ![s].name = Fresh(names + 1)]
            /\ Step(Rec("rename", s, Fresh(names + 1), "ok"))
NewOne == Seldom /\ Len(heap) < MaxHeap
          /\ names' = names + 1 /\ orig' = Append(orig, Len(heap) + 1) /\ heap' = Append(heap, New(names + 1)) /\ Step(Rec("new", Len(heap) + 1, Fresh(names + 1), "ok"))
\* a copy of everything that can be reached; the copies get new names
Ascending(S) == [j \in 1 .. Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = j - 1]
Copy == Seldom /\ \E s \in Pick(DOMAIN heap) :
          LET R == Ascending(Reach(heap, s))
              to == [x \in Reach(heap, s) |-> Len(heap) + (CHOOSE j \in DOMAIN R : R[j] = x)]
          IN  /\ Len(heap) + Len(R) <= MaxHeap + 1
              /\ heap' = heap \o [j \in DOMAIN R |->
                   [heap[R[j]] EXCEPT !.name = Fresh(names + j),
                      !.items = [k \in DOMAIN @ |-> IF @[k].what.k = "op" THEN @[k] ELSE [@[k] EXCEPT !.what.i = to[@]]]]]
              /\ names' = names + Len(R) /\ orig' = orig \o [j \in DOMAIN R |-> orig[R[j]]]
              /\ Step(Rec("copy", s, [from |-> R, names |-> [j \in DOMAIN R |-> Fresh(names + j)]], "ok"))
Next == Add \/ Add \/ Nest \/ AddWrong \/ Constrain \/ AddRes \/ AddResWrong \/ Reps \/ Rename \/ NewOne \/ Copy \/ Finish(<<heap, names, orig>>)
Spec == Init /\ [][Next]_<<heap, names, orig, h, done>>
------------------------------------------------------------------------------
TypeOK == \A s \in DOMAIN heap : heap[s].reps > 0 /\ \A j \in DOMAIN heap[s].items :
            LET w == heap[s].items[j].what IN IF w.k = "op" THEN w.i \in 1 .. NOps ELSE w.i \in DOMAIN heap
Acyclic == \A s \in DOMAIN heap : \A j \in DOMAIN heap[s].items :
             heap[s].items[j].what.k # "op" => s \notin Reach(heap, heap[s].items[j].what.i)
UniqueLabels == \A s \in DOMAIN heap : Cardinality(LabelsOf(s)) = Len(heap[s].items)
UniqueNames == \A s \in DOMAIN heap, t \in DOMAIN heap : s # t => heap[s].name # heap[t].name
UniqueResources == \A s \in DOMAIN heap : Cardinality(ResNames(heap[s].res)) = Len(heap[s].res)
\* a step changes one schedule, or adds some
Local == [][Cardinality({s \in DOMAIN heap : heap'[s] # heap[s]}) <= 1]_<<heap, names, orig>>
Small == Len(heap) <= MaxHeap /\ TLCGet("level") < 5
=============================================================================
