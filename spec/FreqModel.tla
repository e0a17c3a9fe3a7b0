-------------------------- MODULE FreqModel --------------------------
(* The machine that assigns frequencies, one fact at a time, in any order. *)
EXTENDS Frequencies
CONSTANTS N, None
VARIABLES us, lo, fi, left, err
vars == <<us, lo, fi, left, err>>
Users == [lo : 1..2, clock : {5, 6}, down : {-1, 5, 9}, mix : BOOLEAN, fl : BOOLEAN, lof : {4, 5}, fi : BOOLEAN, iff : {0, 1}]
\* unused values are pinned, to keep the domain small
Norm(u) == (u.fl \/ u.lof = 4) /\ (u.fi \/ u.iff = 0)
Init ==
  /\ us \in [1..N -> {u \in Users : Norm(u)}]
  /\ us[1].lo = 1
  /\ lo = [l \in 1..2 |-> None] /\ fi = [i \in 1..N |-> None]
  /\ left = {<<k, i>> : k \in {"lo", "if", "sum"}, i \in 1..N} /\ err = FALSE
SetLo(l, v) == IF lo[l] = None THEN lo' = [lo EXCEPT ![l] = v] /\ err' = err ELSE lo' = lo /\ err' = (err \/ lo[l] # v)
Take(i) ==
  \/ /\ <<"lo", i>> \in left
     /\ left' = left \ {<<"lo", i>>} /\ fi' = fi
     /\ IF ~us[i].mix THEN SetLo(us[i].lo, Target(us[i]))
        ELSE IF us[i].fl THEN SetLo(us[i].lo, us[i].lof) ELSE UNCHANGED <<lo, err>>
  \/ /\ <<"if", i>> \in left
     /\ left' = left \ {<<"if", i>>} /\ UNCHANGED <<lo>>
     /\ IF us[i].fi THEN IF fi[i] = None THEN fi' = [fi EXCEPT ![i] = us[i].iff] /\ err' = err
                         ELSE fi' = fi /\ err' = (err \/ fi[i] # us[i].iff)
        ELSE UNCHANGED <<fi, err>>
  \/ /\ <<"sum", i>> \in left /\ us[i].mix
     /\ IF BadDown(us[i]) THEN err' = TRUE /\ left' = left \ {<<"sum", i>>} /\ UNCHANGED <<lo, fi>>
        ELSE IF lo[us[i].lo] # None
        THEN /\ left' = left \ {<<"sum", i>>} /\ lo' = lo
             /\ LET v == Target(us[i]) - lo[us[i].lo] IN
                IF fi[i] = None THEN fi' = [fi EXCEPT ![i] = v] /\ err' = err ELSE fi' = fi /\ err' = (err \/ fi[i] # v)
        ELSE /\ fi[i] # None
             /\ left' = left \ {<<"sum", i>>} /\ fi' = fi /\ SetLo(us[i].lo, Target(us[i]) - fi[i])
  \/ /\ <<"sum", i>> \in left /\ ~us[i].mix
     /\ left' = left \ {<<"sum", i>>} /\ UNCHANGED <<lo, fi>> /\ err' = (err \/ BadDown(us[i]))
Next == (\E i \in 1..N : Take(i)) /\ UNCHANGED us
Spec == Init /\ [][Next]_vars
Final == ~ENABLED Next
Result == IF err THEN "reject"
          ELSE IF left # {} \/ \E i \in 1..N : fi[i] = None THEN "reject" ELSE "ok"
\* confluence: whatever the order, the machine ends as declared
Confluent ==
  Final => /\ Result = (IF Status(us) = "ok" THEN "ok" ELSE "reject")
           /\ Result = "ok" => /\ \A l \in Los(us) : lo[l] = LoOf(us, l)
                               /\ \A i \in 1..N : fi[i] = IfOf(us, i)
AddsUp == Final /\ Result = "ok" => \A i \in 1..N : us[i].mix => lo[us[i].lo] + fi[i] = Target(us[i])
Keeps == Final /\ Result = "ok" => \A i \in 1..N : /\ us[i].fi => fi[i] = us[i].iff
                                                   /\ us[i].mix /\ us[i].fl => lo[us[i].lo] = us[i].lof
=============================================================================
