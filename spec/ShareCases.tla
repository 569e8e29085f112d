----------------------------- MODULE ShareCases -----------------------------
(* Histories on one generator and one options object, for every schema of a    *)
(* list of which the values depend on the random source alone.                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, SequencesExt

Schemas == 1..24
(* plain: as before, other: another random source, tight: past the soft limit  *)
(* with one attempt each, cut: past the cutoff, shallow: no depth for          *)
(* references, cyclic: with permission for cycles, print: describe it, parse:  *)
(* parse the same text with the same parser options again, par: eight at once. *)
Ops == {"plain", "other", "tight", "cut", "shallow", "cyclic", "print", "parse", "par"}
Histories == IF IOEnv.TIER = "thorough" THEN [1..3 -> Ops] ELSE [1..2 -> Ops]
S == SetToSeq({ [schema |-> s, ops |-> h] : s \in Schemas, h \in Histories })
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "share-" \o ToString(n), kind |-> "share", extra |-> S[n]] ])
=============================================================================
