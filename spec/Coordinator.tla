---------------------------- MODULE Coordinator ----------------------------
(* The instrument coordinator. State: the names of its components in order  *)
(* of addition, the prepared schedule (None when there is none, or when     *)
(* preparing one failed), the last schedule given, the timeout, and of each *)
(* component object what it was last prepared with and whether it runs.     *)
(* A schedule is a sequence of <<component, argument>>, the argument tells  *)
(* what the component does with it: "bad" makes its prepare fail, "noattr"  *)
(* makes its stop fail, others yield the data Cells(argument).              *)
EXTENDS Replay
CONSTANTS Names, Absent, MaxInstr, ArgsUsed
VARIABLES comps, cur, last, tmo, prep, running
vars == <<comps, cur, last, tmo, prep, running>>

None == "none"
No == <<<<"none", "none">>>>       \* no schedule
Objs == Names \cup Absent
\* argument |-> data: cells <<channel, index, value>>; the dimensions are index
\* or, for channels of Rep, repetition (two of them) and index
Cells(a) == CASE a = "x0" -> {<<"0", 0, 1>>}
              [] a = "x1" -> {<<"0", 1, 2>>, <<"0", 2, 3>>}
              [] a = "x2" -> {<<"0", 0, 7>>, <<"0", 1, 5>>}
              [] a = "y0" -> {<<"1", 0, 4>>, <<"1", 3, 6>>}
              [] a = "xy" -> {<<"0", 3, 8>>, <<"1", 1, 9>>}
              [] a = "r0" -> {<<"2", 0, 1>>, <<"2", 1, 2>>}
              [] a = "r1" -> {<<"2", 2, 3>>, <<"2", 3, 4>>}
              [] a = "r2" -> {<<"2", 1, 5>>, <<"2", 3, 6>>}
              [] OTHER -> {}
Args == {"nodata", "empty", "bad", "noattr", "x0", "x1", "x2", "y0", "xy", "r0", "r1", "r2"} \cap ArgsUsed
Key(c) == <<c[1], c[2]>>
Conflict(A, B) == \E a \in A, b \in B : Key(a) = Key(b)

\* all sequences of up to MaxInstr instructions for different components
Perms == UNION {{s \in [1 .. n -> Objs] : \A i, j \in 1 .. n : i # j => s[i] # s[j]} : n \in 0 .. MaxInstr}
SchedOf(p, f) == [i \in 1 .. Len(p) |-> <<p[i], f[i]>>]
PickSched == IF Record
  THEN LET p == Random(Perms) IN {TLCEval([i \in 1 .. Len(p) |-> <<p[i], Random(Args)>>])}
  ELSE UNION {{SchedOf(p, f) : f \in [1 .. Len(p) -> Args]} : p \in Perms}
\* mostly schedules that the present components can run
PickGood == IF ~Record THEN {} ELSE
  LET P == {p \in Perms : \A i \in 1 .. Len(p) : p[i] \in ToSet(comps)}
      p == Random(P)
  IN {TLCEval([i \in 1 .. Len(p) |-> <<p[i], Random(Args \ {"bad"})>>])}

Has(n) == n \in ToSet(comps)
Used(s) == {s[i][1] : i \in 1 .. Len(s)}
ArgOf(s, n) == LET i == CHOOSE i \in 1 .. Len(s) : s[i][1] = n IN s[i][2]
R(do, arg, res, calls) == [do |-> do, arg |-> arg, res |-> res, calls |-> calls,
                           comps |-> comps', last |-> last', val |-> None]
V(do, arg, res, calls, v) == [R(do, arg, res, calls) EXCEPT !.val = v]

Init == /\ comps = <<>> /\ cur = No /\ last = No /\ tmo = 60
        /\ prep = [n \in Objs |-> None] /\ running = [n \in Objs |-> FALSE]
        /\ ReplayInit

Add(n) == /\ IF Has(n) THEN comps' = comps ELSE comps' = Append(comps, n)
          /\ UNCHANGED <<cur, last, tmo, prep, running>>
          /\ Step(R("add", n, IF Has(n) THEN "ValueError" ELSE "ok", <<>>))
AddOther == /\ UNCHANGED vars /\ Step(R("addother", None, "TypeError", <<>>))
Remove(n) == /\ comps' = SelectSeq(comps, LAMBDA x : x # n)
             /\ UNCHANGED <<cur, last, tmo, prep, running>>
             /\ Step(R("remove", n, IF Has(n) THEN "ok" ELSE "ValueError", <<>>))
Get(n) == /\ UNCHANGED vars
          /\ Step(V("get", n, IF Has(n) THEN "ok" ELSE "KeyError", <<>>, n))
GetOther == /\ UNCHANGED vars /\ Step(R("getother", None, "KeyError", <<>>))
SetTimeout(t) == /\ tmo' = t /\ UNCHANGED <<comps, cur, last, prep, running>>
                 /\ Step(R("timeout", t, "ok", <<>>))

\* all or nothing: no component is touched unless all are there; when a component
\* refuses its instructions the coordinator is left without a prepared schedule
Prepare(s) ==
  IF ~(Used(s) \subseteq ToSet(comps))
  THEN /\ UNCHANGED vars /\ Step(R("prepare", s, "KeyError", <<>>))
  ELSE LET bad == {i \in 1 .. Len(s) : s[i][2] = "bad"}
           k == IF bad = {} THEN Len(s) ELSE CHOOSE i \in bad : \A j \in bad : i <= j
       IN /\ last' = s
          /\ cur' = IF bad = {} THEN s ELSE No
          /\ prep' = [n \in Objs |-> IF \E i \in 1 .. k : s[i][1] = n THEN ArgOf(s, n) ELSE prep[n]]
          /\ UNCHANGED <<comps, tmo, running>>
          /\ Step(R("prepare", s, IF bad = {} THEN "ok" ELSE "RuntimeError",
                    [i \in 1 .. k |-> <<s[i][1], "prepare", s[i][2]>>]))
PrepareOther == /\ UNCHANGED vars /\ Step(R("prepareother", None, "TypeError", <<>>))

CallsTo(cs, what, arg) == [i \in 1 .. Len(cs) |-> <<cs[i], what, arg>>]
\* in order of addition, only components of the prepared schedule
Start == IF cur = No THEN UNCHANGED vars /\ Step(R("start", None, "ValueError", <<>>))
  ELSE LET u == SelectSeq(comps, LAMBDA n : n \in Used(cur))
       IN /\ running' = [n \in Objs |-> running[n] \/ n \in ToSet(u)]
          /\ UNCHANGED <<comps, cur, last, tmo, prep>>
          /\ Step(R("start", None, "ok", CallsTo(u, "start", "")))
NoAttr == {i \in 1 .. Len(comps) : prep[comps[i]] = "noattr"}
\* every component; those whose stop fails keep running, with allow_failure the others still stop
Stop(allow) == LET k == IF allow \/ NoAttr = {} THEN Len(comps) ELSE CHOOSE i \in NoAttr : \A j \in NoAttr : i <= j
  IN /\ running' = [n \in Objs |-> running[n] /\ ~(\E i \in 1 .. k : comps[i] = n /\ i \notin NoAttr)]
     /\ UNCHANGED <<comps, cur, last, tmo, prep>>
     /\ Step(R("stop", allow, IF allow \/ NoAttr = {} THEN "ok" ELSE "AttributeError",
               CallsTo(SubSeq(comps, 1, k), "stop", "")))
Waited == [n \in Objs |-> running[n] /\ ~Has(n)]
Wait(t) == /\ running' = Waited /\ UNCHANGED <<comps, cur, last, tmo, prep>>
           /\ Step(R("wait", t, "ok", CallsTo(comps, "wait", ToString(t))))
\* the union of what the components of the prepared schedule hold
Retrieve == IF cur = No THEN UNCHANGED vars /\ Step(R("retrieve", None, "ValueError", <<>>))
  ELSE LET c(i) == Cells(cur[i][2])
           all == UNION {c(i) : i \in 1 .. Len(cur)}
           gone == {i \in 1 .. Len(cur) : ~Has(cur[i][1])}
           clash == {j \in 1 .. Len(cur) : \E i \in 1 .. j - 1 : Conflict(c(i), c(j))}
           k == LET x == gone \cup clash IN IF x = {} THEN Len(cur) + 1 ELSE CHOOSE i \in x : \A j \in x : i <= j
           calls(n) == [i \in 1 .. n |-> <<cur[i][1], "retrieve", "">>]
       IN /\ running' = Waited
          /\ UNCHANGED <<comps, cur, last, tmo, prep>>
          /\ Step(V("retrieve", None, IF k > Len(cur) THEN "ok" ELSE IF k \in gone THEN "KeyError" ELSE "RuntimeError",
                    CallsTo(comps, "wait", ToString(tmo)) \o calls(Len(cur)),
                    IF k > Len(cur) THEN all ELSE {}))
\* every component is asked; those with something to say are listed by instrument
Logs == IF cur = No THEN UNCHANGED vars /\ Step(R("logs", None, "RuntimeError", <<>>))
  ELSE /\ UNCHANGED vars
       /\ Step(V("logs", None, "ok", CallsTo(comps, "log", ""),
                 {<<n, prep[n]>> : n \in {m \in ToSet(comps) : prep[m] # "nodata"}}))
Running == /\ UNCHANGED vars
           /\ Step(V("running", None, "ok", <<>>, \E i \in 1 .. Len(comps) : running[comps[i]]))
Last == /\ UNCHANGED vars
        /\ Step(R("last", None, IF last = No THEN "ValueError" ELSE "ok", <<>>))

Next == \/ \E n \in Pick(Names) : (Seldom \/ ~Has(n)) /\ Add(n)
        \/ \E n \in Pick(Objs) : Seldom /\ Remove(n)
        \/ \E n \in Pick(Names) : Seldom /\ Remove(n)
        \/ Seldom /\ (AddOther \/ PrepareOther \/ GetOther)
        \/ Start \/ Retrieve
        \/ Seldom /\ (Logs \/ Running \/ Last)
        \/ \E n \in Pick(Objs) : Seldom /\ Get(n)
        \/ \E t \in Pick({1, 7, 60}) : Seldom /\ (SetTimeout(t) \/ Wait(t))
        \/ \E s \in PickSched : Prepare(s)
        \/ \E s \in PickGood : Prepare(s)
        \/ \E b \in Pick(BOOLEAN) : Stop(b)
        \* more weight on the main sequence
        \/ (Record /\ cur # No /\ Retrieve)
        \/ (Record /\ Len(comps) > 1 /\ \E s \in PickGood : Prepare(s))
        \/ Finish(vars)
Spec == Init /\ [][Next]_<<vars, h, done>>

\* Design invariants (exhaustive runs)
Distinct == \A i, j \in 1 .. Len(comps) : i # j => comps[i] # comps[j]
\* a prepared schedule means: every one of its components was prepared with its
\* instruction, and by nothing later
PreparedIsPrepared == cur # No => \A i \in 1 .. Len(cur) : prep[cur[i][1]] = cur[i][2]
LastIsLast == cur # No => last = cur
NeverBad == cur # No => \A i \in 1 .. Len(cur) : cur[i][2] # "bad"
NoAbsent == \A n \in Absent : ~Has(n) /\ prep[n] = None /\ ~running[n]
\* only prepared components can ever run
RunsPrepared == \A n \in Objs : running[n] => prep[n] # None
=============================================================================
