----------------------------- MODULE StoreTrace -----------------------------
(* Judges a recorded history of writing, reading, extending and compiling.  *)
(* Each event carries the step of Store that it replays, and what was seen  *)
(* after it: for each object its fingerprint (fp) and the fingerprint of    *)
(* what it would be written as (txt), for the step's object whether it is   *)
(* equal to each object (eq: 1, 0 or 2 for an exception), the result of a   *)
(* compilation (res) and whether the step failed (exc).                     *)
EXTENDS Judge, FiniteSets
Start(n) == [obj |-> [o \in 1 .. n |-> <<o, 0>>], doc |-> [d \in 1 .. n |-> <<0, 0>>],
             fp |-> <<>>, txt |-> <<>>, res |-> <<>>, bad |-> {}]
Apply(st, e) ==
  CASE e.do = "write" -> [st EXCEPT !.doc[e.d] = st.obj[e.o]]
    [] e.do = "read" -> [st EXCEPT !.obj[e.o] = st.doc[e.d]]
    [] e.do = "copy" -> [st EXCEPT !.obj[e.o] = st.obj[e.d]]
    [] e.do = "grow" -> [st EXCEPT !.obj[e.o][2] = @ + 1]
    [] OTHER -> st
Known(memo, k) == {memo[i][2] : i \in {i \in DOMAIN memo : memo[i][1] = k}}
Add(memo, k, v) == IF v \in Known(memo, k) THEN memo ELSE Append(memo, <<k, v>>)
RECURSIVE AddAll(_, _, _, _)
AddAll(memo, ks, vs, o) == IF o > Len(ks) THEN memo ELSE AddAll(Add(memo, ks[o], vs[o]), ks, vs, o + 1)
Fault(cl, i, what) == {<<cl, ToString(i) \o ": " \o what>>}
What(e) == e.do \o " " \o e.via \o " object " \o ToString(e.o)
\* the object of the step is as its content says; the others are as they were
Check(st, n, e, i) ==
  (IF e.exc # "" THEN Fault("failed", i, What(e) \o ": " \o e.exc) ELSE {})
  \cup UNION {IF e.fp[o] \notin Known(st.fp, n.obj[o]) /\ Known(st.fp, n.obj[o]) # {}
                THEN Fault(IF o = e.o /\ e.do = "read" THEN "read-differs" ELSE IF o = e.o THEN "changed-by-" \o e.do ELSE "other-changed",
                           i, What(e) \o ", object " \o ToString(o) \o " of " \o ToString(n.obj[o])) ELSE {} : o \in DOMAIN n.obj}
  \cup UNION {IF e.txt[o] \notin Known(st.txt, n.obj[o]) /\ Known(st.txt, n.obj[o]) # {}
                THEN Fault("writes-differently", i, What(e) \o ", object " \o ToString(o) \o " of " \o ToString(n.obj[o])) ELSE {} : o \in DOMAIN n.obj}
  \cup UNION {IF e.eq[o] # (IF n.obj[o] = n.obj[e.o] THEN 1 ELSE 0)
                THEN Fault("equality", i, What(e) \o " with " \o ToString(n.obj[e.o]) \o " compared to " \o ToString(n.obj[o]) \o " gives " \o ToString(e.eq[o]))
                ELSE {} : o \in DOMAIN e.eq}
  \cup (IF e.do = "compile" /\ e.res \notin Known(st.res, n.obj[e.o]) /\ Known(st.res, n.obj[e.o]) # {}
          THEN Fault("compiles-differently", i, What(e) \o " of " \o ToString(n.obj[e.o])) ELSE {})
StepOf(st, e, i) ==
  LET n == Apply(st, e)
  IN  [n EXCEPT !.bad = @ \cup Check(st, n, e, i),
                !.fp = AddAll(@, n.obj, e.fp, 1), !.txt = AddAll(@, n.obj, e.txt, 1),
                !.res = IF e.do = "compile" THEN Add(@, n.obj[e.o], e.res) ELSE @]
RECURSIVE Run(_, _, _)
Run(st, evs, i) == IF i > Len(evs) THEN st ELSE Run(StepOf(st, evs[i], i), evs, i + 1)
Bad(c) == Run(Start(Len(c[1].fp)), c, 1).bad
Out(k) == LET b == Bad(Cases[k])
          IN  IF b = {} THEN Verdict(k, "ok", "") ELSE \A x \in b : Verdict(k, x[1], x[2])
VARIABLE x
Init == x = 0 /\ \A k \in DOMAIN Cases : Out(k)
Next == UNCHANGED x
=============================================================================
