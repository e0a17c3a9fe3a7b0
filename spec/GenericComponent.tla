-------------------------- MODULE GenericComponent --------------------------
(* The generic component sets parameters of any instrument. State: of each  *)
(* parameter the value the instrument has, the value that was set through   *)
(* the parameter last (the cache) and whether there is one; the values that *)
(* functions were called with; the switch that forces setting.              *)
(* A configuration is a sequence of <<key, value>>.                         *)
EXTENDS Replay
CONSTANTS Vals, Params
VARIABLES val, cache, calls, force
vars == <<val, cache, calls, force>>
Funcs == {"g1.f"}
Keys == Params \cup Funcs \cup {"g1", "nowhere.p", "g1.sub", "g2.const", "g1.none"}
Init == /\ val = [p \in Params |-> 0] /\ cache = [p \in Params |-> -1]
        /\ calls = <<>> /\ force = FALSE /\ ReplayInit
\* one entry: what it does and how it fails
Error(k) == CASE k = "g1" -> "KeyError"            \* no instrument name
              [] k = "nowhere.p" -> "KeyError"     \* no such instrument
              [] k = "g1.sub" -> "RuntimeError"    \* neither parameter nor function
              [] k = "g2.const" -> "RuntimeError"
              [] k = "g1.none" -> "AttributeError" \* nothing of that name
              [] OTHER -> "ok"
Skips(k, v) == k \in Params /\ ~force /\ cache[k] = v
RECURSIVE Run(_, _, _)
\* the sequence of things set until the first failure
Run(cfg, i, s) ==
  IF i > Len(cfg) THEN [set |-> s, res |-> "ok"]
  ELSE LET k == cfg[i][1]  v == cfg[i][2]
           c == IF k \notin Params THEN -1
                ELSE LET J == {j \in 1 .. Len(s) : s[j][1] = k}
                     IN IF J = {} THEN cache[k] ELSE s[CHOOSE j \in J : \A l \in J : l <= j][2]
       IN IF Error(k) # "ok" THEN [set |-> s, res |-> Error(k)]
          ELSE IF k \in Params /\ ~force /\ c = v THEN Run(cfg, i + 1, s)
          ELSE Run(cfg, i + 1, Append(s, <<k, v>>))
LastOf(s, p, d) == LET J == {j \in 1 .. Len(s) : s[j][1] = p}
                   IN IF J = {} THEN d ELSE s[CHOOSE j \in J : \A l \in J : l <= j][2]
Prepare(cfg) == LET r == Run(cfg, 1, <<>>) IN
  /\ val' = [p \in Params |-> LastOf(r.set, p, val[p])]
  /\ cache' = [p \in Params |-> LastOf(r.set, p, cache[p])]
  /\ UNCHANGED <<calls, force>>
  /\ Step([do |-> "prepare", arg |-> cfg, res |-> r.res, set |-> r.set, val |-> val'])
Force(b) == /\ force' = b /\ UNCHANGED <<val, cache, calls>>
            /\ Step([do |-> "force", arg |-> b, res |-> "ok", set |-> <<>>, val |-> val'])
\* somebody turns the knob of the instrument: the parameter does not know
Knob(p, v) == /\ val' = [val EXCEPT ![p] = v] /\ UNCHANGED <<cache, calls, force>>
              /\ Step([do |-> "knob", arg |-> <<p, v>>, res |-> "ok", set |-> <<>>, val |-> val'])
\* the user sets the parameter directly
Set(p, v) == /\ val' = [val EXCEPT ![p] = v] /\ cache' = [cache EXCEPT ![p] = v] /\ UNCHANGED <<calls, force>>
             /\ Step([do |-> "set", arg |-> <<p, v>>, res |-> "ok", set |-> <<<<p, v>>>>, val |-> val'])
Good == Params \cup Funcs
Entry(S) == TLCEval(<<Random(S), Random(Vals)>>)
KeySeq(n) == IF Random(1 .. 6) = 1 THEN TLCEval([i \in 1 .. n |-> Random(Keys)])
             ELSE TLCEval([i \in 1 .. n |-> Random(Good)])
Uniq(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Configs == IF Record
  THEN LET n == Random(1 .. 4)  ks == KeySeq(n)
       IN {TLCEval([i \in 1 .. (IF Uniq(ks) THEN n ELSE 1) |-> <<ks[i], Random(Vals)>>])}
  ELSE {<<>>} \cup {<<<<k, v>>>> : k \in Keys, v \in Vals}
       \cup UNION {{<<<<k, v>>, <<l, w>>>> : k \in Keys \ {l}, v \in Vals, w \in Vals} : l \in Params}
Next == \/ \E c \in Configs : Prepare(c)
        \/ (Record /\ \E c \in Configs : Prepare(c))
        \/ \E b \in Pick(BOOLEAN) : Seldom /\ Force(b)
        \/ \E p \in Pick(Params), v \in Pick(Vals) : Seldom /\ (Knob(p, v) \/ Set(p, v))
        \/ Finish(vars)
Spec == Init /\ [][Next]_<<vars, h, done>>
\* after preparing, the instrument has the prescribed values, unless someone
\* turned a knob behind the back of the parameter
TypeOK == \A p \in Params : val[p] \in Vals /\ cache[p] \in Vals \cup {-1}
Forced == [][\A c \in Configs : (Prepare(c) /\ force) =>
              \A i \in 1 .. Len(c) : (c[i][1] \in Params /\ \A j \in 1 .. i : Error(c[j][1]) = "ok")
                 => val'[c[i][1]] = c[i][2]]_<<vars>>
=============================================================================
