-------------------------- MODULE FreqTrace --------------------------
(* Compiled LO and intermediate frequencies judged against Frequencies.    *)
(* case: us (users; frequencies in 10 Hz), any (either outcome is fine),    *)
(*   setc: sequence of [u, c], clock changes the schedule asks for,         *)
(*   obs: [res, lo |-> sequence of [l, f], iff |-> sequence of              *)
(*   [u, f, on (the modulator is on)], set |-> sequence of [u, c, f]: after *)
(*   the clock of user u was set to c the program sets frequency f]         *)
EXTENDS Frequencies, Judge
VARIABLES c, ph
V(cl, d) == [cl |-> cl, d |-> ToString(d)]
Range == 50000000  \* the modulator reaches 500 MHz
Abs(x) == IF x < 0 THEN -x ELSE x
Verdicts(k) ==
  LET cs == Cases[k]
      us == cs.us
      st == Status(us)
      o == cs.obs
      lo == {[l |-> o.lo[j].l, f |-> o.lo[j].f] : j \in DOMAIN o.lo}
      bad ==
        {V("lo", <<w, LoOf(us, w)>>) : w \in {l \in Los(us) : l > 0 /\ {x.f : x \in {y \in lo : y.l = l}} # {LoOf(us, l)}}}
        \cup {V("if", <<o.iff[j], IfOf(us, o.iff[j].u)>>) :
                j \in {j \in DOMAIN o.iff : o.iff[j].f # IfOf(us, o.iff[j].u)}}
        \cup {V("nco-off", o.iff[j]) : j \in {j \in DOMAIN o.iff : ~o.iff[j].on /\ o.iff[j].f # 0}}
        \cup {V("if-missing", i) : i \in {i \in DOMAIN us : ~\E j \in DOMAIN o.iff : o.iff[j].u = i}}
        \cup {V("set-frequency", <<o.set[j], IfAt(us, o.set[j].u, o.set[j].c)>>) :
                j \in {j \in DOMAIN o.set : Abs(o.set[j].f - IfAt(us, o.set[j].u, o.set[j].c)) > 0}}
        \cup {V("sum", <<i>>) : i \in {i \in DOMAIN us : us[i].mix /\ LoOf(us, us[i].lo) + IfOf(us, i) # Target(us[i])}}
      out == st = "ok" /\ \E j \in DOMAIN cs.setc : Abs(IfAt(us, cs.setc[j].u, cs.setc[j].c)) > Range
  IN IF o.res # "ok" THEN (IF st = "ok" /\ ~out /\ ~cs.any /\ Local(us) THEN {V("rejected-valid", "")} ELSE {V("ok", "")})
     ELSE IF st # "ok" THEN {V("accepted-" \o st, us)}
     ELSE IF out THEN {V("accepted-range", cs.setc)}
     ELSE IF bad = {} THEN {V("ok", "")} ELSE bad
Init == c \in 1..Len(Cases) /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED c /\ \A v \in Verdicts(c) : Verdict(c, v.cl, v.d)
=============================================================================
