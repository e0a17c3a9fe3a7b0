------------------------------ MODULE Judge ------------------------------
(* Total verdicts: every case ends with at least one line naming a clause  *)
EXTENDS TLC, Json, IOUtils, Integers, Sequences
Cases == JsonDeserialize(IOEnv.CASES)
Verdict(k, clause, detail) ==
  PrintT("VERDICT|" \o ToString(k) \o "|" \o clause \o "|" \o ToString(detail))
=============================================================================
