---------------------------- MODULE RefGraphCases ----------------------------
(* All small graphs of references: a root and the definitions a and b, which   *)
(* refer to each other, themselves and the root from every kind of place.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Children == {"leaf", "a", "b", "#"}
One == { <<x>> : x \in Children }
Two == Children \X Children
Kinds == {"tuple", "obj", "any", "fixed", "if", "map", "all"}

Body(k, c) == [k |-> k, c |-> c]
Small == { Body("ref", <<x>>) : x \in Children \ {"leaf"} } \cup { Body(k, c) : k \in Kinds, c \in One } \cup { Body("leaf", <<>>) }
Big == Small \cup { Body(k, c) : k \in {"tuple", "obj", "any", "if"}, c \in Two }
Roots == { Body("ref", <<"a">>), Body("tuple", <<"a", "b">>), Body("any", <<"b", "a">>), Body("obj", <<"a", "#">>) }

(* A definition that is a chain of references, or a choice, back to itself has *)
(* no value at all; it is C18 that says what becomes of it.                    *)
Graphs == IF IOEnv.TIER = "thorough" THEN Roots \X Big \X Big ELSE Roots \X Big \X Small
Case(t, n) == [id |-> "graph-" \o ToString(n), kind |-> "refs", extra |-> [root |-> t[1], a |-> t[2], b |-> t[3]]]
Seqd == SetToSeq(Graphs)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN Seqd |-> Case(Seqd[n], n) ])
=============================================================================
