------------------------------ MODULE Gettable ------------------------------
(* Gettables that make, compile, run and read out schedules on instruments  *)
(* that they share.                                                         *)
(*                                                                          *)
(* A get first makes sure that nothing runs, (re)initialises the program if *)
(* it has to (always, or after anything went wrong in the last attempt),    *)
(* starts it, reads the data, and stops. The program is made of the values  *)
(* that the parameters, the keyword arguments and the repetitions have at   *)
(* the initialisation. The data are those of the program that is in the     *)
(* instruments; a missing parameter, a failing instrument, no data and an   *)
(* unexpected number of values are errors, and never stale or other data.   *)
EXTENDS Replay
CONSTANTS MaxVal, Protos
Gets == {1, 2, 3}          \* 1 and 2 are plain, 3 measures its run times
ParOf == <<1, 2, 1>>       \* the parameter that is the first argument of the schedule function
Missing == 0
NoProg == [g |-> 0, a |-> 0, b |-> 0, reps |-> 0]
Failures == {"stop", "prepare", "start", "retrieve", "empty", "last-stop"}
VARIABLES par, kw, reps, always, init, comp, hw, fail, shape
vars == <<par, kw, reps, always, init, comp, hw, fail, shape>>
\* what a gettable measures: channels in the order of the instrument's dataset
ChanSets == IF Record THEN {<<0>>, <<1>>, <<0, 1>>, <<2, 0>>, <<10, 2>>, <<5, 10, 2>>} ELSE {<<0>>, <<2, 0>>}
Shapes == [proto : Protos, chans : ChanSets, n : IF Record THEN {1, 1, 2, 3} ELSE {1, 2}, batched : BOOLEAN, ri : BOOLEAN, xr : {FALSE}]
          \cup (IF Record THEN [proto : Protos, chans : ChanSets, n : {2}, batched : {TRUE}, ri : {TRUE}, xr : {TRUE}] ELSE {})
Init == /\ ReplayInit /\ par = <<1, 2>> /\ kw = [g \in Gets |-> g] /\ reps = 2
        /\ always = [g \in Gets |-> TRUE] /\ init = [g \in Gets |-> FALSE] /\ comp = [g \in Gets |-> NoProg]
        /\ hw = NoProg /\ fail = "none"
        /\ IF Record THEN shape = [g \in Gets |-> RandomElement({x \in Shapes : g > 0})]
                     ELSE \E s \in Shapes : shape = [g \in Gets |-> s]
------------------------------------------------------------------------------
\* the data of a program: <<real part, imaginary part, 1 if missing>>
Val(p, ch, i, r) == LET k == ((p.a * 7 + p.b * 5 + p.reps * 3 + ch * 2 + i + r * 4) % 9) + 1
                    IN  IF k = 8 THEN <<0, 0, 1>> ELSE <<3 * k, -4 * k, 0>>
\* repetitions are kept by the append bin mode only
NReps(s, p) == IF s.proto = "append" THEN p.reps ELSE 1
Values(s, p, ch) == [j \in 1 .. NReps(s, p) * s.n |-> Val(p, ch, (j - 1) % s.n, (j - 1) \div s.n)]
\* channels in ascending order
Ascending(q) == LET S == ToSet(q) IN [j \in 1 .. Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = j - 1]
Kinds(s) == CASE s.xr -> <<"complex">> [] s.proto \in {"thresholded", "counts"} -> <<"re">> [] s.ri -> <<"re", "im">> [] OTHER -> <<"abs", "deg">>
Columns(s, p) == LET ch == Ascending(s.chans) m == Len(Kinds(s))
                 IN  [j \in 1 .. Len(ch) * m |->
                        [ch |-> ch[((j - 1) \div m) + 1], kind |-> Kinds(s)[((j - 1) % m) + 1], val |-> Values(s, p, ch[((j - 1) \div m) + 1])]]
Single(s, p) == NReps(s, p) * s.n = 1
------------------------------------------------------------------------------
Prog(g) == [g |-> g, a |-> par[ParOf[g]], b |-> kw[g], reps |-> reps]
Call(what) == [op |-> what, p |-> NoProg]
Rec(do, g, arg, res, calls, cols, cs) == [do |-> do, g |-> g, arg |-> arg, res |-> res, calls |-> calls, cols |-> cols, comp |-> cs, shape |-> shape]
\* initialisation: [res, calls, init, comp, hw, fail]
Initialise(g, f) ==
  IF par[ParOf[g]] = Missing
    THEN [res |-> "TypeError", calls |-> <<>>, ok |-> FALSE, comp |-> comp[g], hw |-> hw, fail |-> f]
    ELSE LET c == <<[op |-> "prepare", p |-> Prog(g)]>>
         IN  IF f = "prepare" THEN [res |-> "RuntimeError", calls |-> c, ok |-> FALSE, comp |-> Prog(g), hw |-> NoProg, fail |-> "none"]
             ELSE [res |-> "ok", calls |-> c, ok |-> TRUE, comp |-> Prog(g), hw |-> Prog(g), fail |-> f]
\* the run after it: [res, calls, fail]
Measured(s, p, f) ==
  CASE p = NoProg -> [res |-> "ValueError", calls |-> <<>>, fail |-> f]   \* the coordinator has nothing to start
    [] f = "start" -> [res |-> "RuntimeError", calls |-> <<Call("start")>>, fail |-> "none"]
    [] f = "retrieve" -> [res |-> "RuntimeError", calls |-> <<Call("start"), Call("retrieve")>>, fail |-> "none"]
    [] f = "last-stop" -> [res |-> "RuntimeError", calls |-> <<Call("start"), Call("retrieve"), Call("stop")>>, fail |-> "none"]
    [] OTHER -> [res |-> IF f = "empty" THEN "RuntimeError"
                         ELSE IF ~s.xr /\ ~s.batched /\ ~Single(s, p) THEN "ValueError" ELSE "ok",
                 calls |-> <<Call("start"), Call("retrieve"), Call("stop")>>, fail |-> IF f = "empty" THEN "none" ELSE f]
Get == \E g \in Pick(Gets), via \in Pick({"get", "call"}) :
         LET f0 == IF fail = "stop" THEN "none" ELSE fail
             need == always[g] \/ ~init[g]
             i == IF need THEN Initialise(g, f0) ELSE [res |-> "ok", calls |-> <<>>, ok |-> TRUE, comp |-> comp[g], hw |-> hw, fail |-> f0]
             \* the instruments hold the program of the gettable that was initialised last
             \* how the data are presented is up to the gettable that reads them
             s == [shape[IF i.hw = NoProg THEN g ELSE i.hw.g] EXCEPT !.batched = shape[g].batched, !.ri = shape[g].ri, !.xr = shape[g].xr]
             mm == IF i.ok THEN Measured(s, i.hw, i.fail) ELSE [res |-> i.res, calls |-> <<>>, fail |-> i.fail]
         IN  /\ init' = [init EXCEPT ![g] = i.ok] /\ comp' = [comp EXCEPT ![g] = i.comp] /\ hw' = i.hw /\ fail' = mm.fail
             /\ Step(Rec("get", g, via, mm.res, <<Call("stop")>> \o i.calls \o mm.calls,
                         IF mm.res = "ok" THEN Columns(s, i.hw) ELSE <<>>, comp'[g]))
             /\ UNCHANGED <<par, kw, reps, always, shape>>
\* without running
InitOnly == Seldom /\ \E g \in Pick(Gets) :
         LET i == Initialise(g, fail)
         IN  /\ init' = [init EXCEPT ![g] = i.ok] /\ comp' = [comp EXCEPT ![g] = i.comp] /\ hw' = i.hw /\ fail' = i.fail
             /\ Step(Rec("initialize", g, "", i.res, i.calls, <<>>, comp'[g]))
             /\ UNCHANGED <<par, kw, reps, always, shape>>
\* compiles with the arguments of the last initialisation and the present number of repetitions
CompileOnly == Seldom /\ \E g \in Pick(Gets) :
         /\ comp[g] # NoProg
         /\ comp' = [comp EXCEPT ![g].reps = reps]
         /\ Step(Rec("compile", g, "", "ok", <<>>, <<>>, comp'[g]))
         /\ UNCHANGED <<par, kw, reps, always, init, hw, fail, shape>>
Set(do, g, arg) == Step(Rec(do, g, arg, "ok", <<>>, <<>>, NoProg))
SetPar == \E i \in Pick({1, 2}), v \in Pick(0 .. MaxVal) : (v # 0 \/ Seldom) /\ Set("param", i, v) /\ par' = [par EXCEPT ![i] = v]
          /\ UNCHANGED <<kw, reps, always, init, comp, hw, fail, shape>>
SetKw == \E g \in Pick(Gets), v \in Pick(1 .. MaxVal) : Set("kwarg", g, v) /\ kw' = [kw EXCEPT ![g] = v]
          /\ UNCHANGED <<par, reps, always, init, comp, hw, fail, shape>>
SetReps == Seldom /\ \E v \in Pick(1 .. MaxVal) : Set("reps", 0, v) /\ reps' = v
          /\ UNCHANGED <<par, kw, always, init, comp, hw, fail, shape>>
SetAlways == Seldom /\ \E g \in Pick(Gets), v \in Pick(BOOLEAN) : Set("always", g, v) /\ always' = [always EXCEPT ![g] = v]
          /\ UNCHANGED <<par, kw, reps, init, comp, hw, fail, shape>>
Arm == fail = "none" /\ Seldom /\ \E f \in Pick(Failures) : Set("fail", 0, f) /\ fail' = f
          /\ UNCHANGED <<par, kw, reps, always, init, comp, hw, shape>>
Next == Get \/ InitOnly \/ CompileOnly \/ SetPar \/ SetKw \/ SetReps \/ SetAlways \/ Arm \/ Finish(vars)
Spec == Init /\ [][Next]_<<vars, h, done>>
------------------------------------------------------------------------------
TypeOK == /\ hw = NoProg \/ hw.a # Missing
          /\ \A g \in Gets : init[g] => comp[g] # NoProg
\* a get of a gettable that always initialises measures the present values, if it succeeds in initialising
Fresh == [][\A g \in Gets : (always[g] /\ init'[g] /\ hw' # hw /\ hw'.g = g) => hw' = Prog(g)]_vars
\* what is in the instruments is never a mixture
Small == TLCGet("level") < 6
Whole == hw = NoProg \/ (hw.g \in Gets /\ hw.reps \in 1 .. MaxVal)
=============================================================================
