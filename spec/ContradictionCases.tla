------------------------- MODULE ContradictionCases -------------------------
(* Every small group of keywords at the root, whole and with the ends of its   *)
(* ranges in separate branches of allOf (split), and one                       *)
(* contradicting and one satisfiable group of each kind at every place and     *)
(* every place in a place.                                                     *)
EXTENDS Contradictions, TLC, Json, IOUtils, SequencesExt

Deep == IOEnv.TIER = "thorough"
Bnd == {None, -1, 0, 2}
Numbers == { [kind |-> "number", type |-> t, lo |-> a, xlo |-> x, hi |-> b, xhi |-> y, m |-> m] :
             t \in {"integer", "number"}, a \in Bnd, x \in BOOLEAN, b \in Bnd, y \in BOOLEAN, m \in {None, -1, 2, 3} }
Strings == { [kind |-> "string", lo |-> a, hi |-> b] : a \in {None, -1, 0, 1, 3}, b \in {None, -1, 0, 1, 3} }
Arrays == { g \in { [kind |-> "array", lo |-> a, hi |-> b, tuple |-> k, closed |-> c, how |-> h, clo |-> x, chi |-> y] :
              a \in {None, 0, 1, 3}, b \in {None, 0, 1, 3}, k \in {None, 0, 1, 2}, c \in BOOLEAN, h \in {"items", "unevaluated", "legacy"}, x \in {None, 0, 1, 3}, y \in {None, 0, 1, 3} } :
            /\ g.closed => Is(g.tuple)
            /\ ~g.closed => g.how = "items"
            /\ (Is(g.clo) \/ Is(g.chi)) => ~Is(g.tuple)
            /\ (Is(g.tuple) /\ Is(g.hi)) => g.tuple <= g.hi
            /\ g.how = "legacy" => g.tuple > 0 }
Objects == { g \in { [kind |-> "object", lo |-> a, hi |-> b, required |-> k, properties |-> p, closed |-> c] :
              a \in {None, -1, 0, 1, 3}, b \in {None, 0, 1, 3}, k \in 0..3, p \in 0..3, c \in BOOLEAN } : TRUE }
Types == {"null", "boolean", "integer", "number", "string", "array", "object"}
Literals == { [kind |-> "literal", type |-> t, values |-> <<v>>, as |-> w] : t \in Types, v \in Types, w \in {"enum", "const"} }
       \cup { [kind |-> "literal", type |-> t, values |-> <<v, x>>, as |-> "enum"] : t \in Types, v \in Types, x \in Types }
Negated == { [kind |-> "negated", values |-> v, no |-> n, as |-> w] : v \in {<<"null">>, <<"string">>}, n \in {<<"null">>, <<"string">>}, w \in {"const", "type"} }
      \cup { [kind |-> "negated", values |-> v, no |-> n, as |-> "enum"] :
               v \in {<<"null">>, <<"string", "null">>, <<"string", "boolean">>, <<"string", "null", "object">>}, n \in {<<"null">>, <<"null", "string">>, <<"boolean", "array">>, <<"object", "null", "string">>} }
Written(c, s) == [kind |-> "written", clash |-> c, text |-> s]
Others == { Written(TRUE, s) : s \in {"{\"type\": \"strin\"}", "{\"type\": \"String\"}", "{\"type\": \"any\"}", "{\"type\": [\"nope\"]}",
              "{\"enum\": []}", "{\"anyOf\": []}", "{\"oneOf\": []}",
              "{\"type\": \"object\", \"properties\": {\"x\": {\"type\": \"null\"}}, \"dependentRequired\": {\"x\": [\"y\"]}}",
              "{\"type\": \"object\", \"properties\": {\"x\": {\"type\": \"null\"}}, \"dependentSchemas\": {\"x\": {\"required\": [\"y\"]}}}",
              "{\"type\": \"string\", \"pattern\": \"(a\"}", "{\"type\": \"string\", \"pattern\": \"[b-a]\"}",
              "{\"type\": \"object\", \"patternProperties\": {\"(a\": {\"type\": \"null\"}}}",
              "{\"allOf\": [{\"type\": \"string\"}, {\"type\": \"null\"}]}", "{\"type\": \"string\", \"allOf\": [{\"type\": [\"null\", \"integer\"]}]}",
              "{\"allOf\": [{\"const\": 1}, {\"const\": 2}]}", "{\"allOf\": [{\"enum\": [1, 2]}, {\"enum\": [3]}]}",
              "{\"allOf\": [{\"type\": \"integer\", \"minimum\": 4}, {\"maximum\": 3}]}", "{\"type\": \"string\", \"minLength\": 4, \"allOf\": [{\"maxLength\": 3}]}",
              "{\"allOf\": [{\"type\": \"array\", \"minItems\": 4}, {\"maxItems\": 3}]}", "{\"allOf\": [{\"type\": \"object\", \"required\": [\"a\", \"b\"]}, {\"maxProperties\": 1}]}"} }
     \cup { Written(FALSE, s) : s \in {"{\"type\": \"string\"}", "{\"type\": [\"string\", \"null\"]}", "{\"enum\": [1]}", "{\"anyOf\": [{\"type\": \"null\"}]}",
              "{\"type\": \"string\", \"pattern\": \"^(a)$\"}", "{\"type\": \"object\", \"patternProperties\": {\"^(a)$\": {\"type\": \"null\"}}}",
              "{\"allOf\": [{\"type\": [\"string\", \"null\"]}, {\"type\": \"null\"}]}", "{\"allOf\": [{\"const\": 1}, {\"const\": 1}]}", "{\"allOf\": [{\"enum\": [1, 2]}, {\"enum\": [2, 3]}]}",
              "{\"allOf\": [{\"type\": \"integer\", \"minimum\": 3}, {\"maximum\": 3}]}", "{\"type\": \"string\", \"minLength\": 3, \"allOf\": [{\"maxLength\": 3}]}",
              "{\"allOf\": [{\"type\": \"array\", \"minItems\": 3}, {\"maxItems\": 4}]}", "{\"allOf\": [{\"type\": \"object\", \"required\": [\"a\", \"b\"]}, {\"maxProperties\": 2}]}"} }

Groups == Numbers \cup Strings \cup Arrays \cup Objects \cup Literals \cup Negated \cup Others

(* Some of each kind that clash in a different way each, and some that do not  *)
N(t, a, x, b, y, m) == [kind |-> "number", type |-> t, lo |-> a, xlo |-> x, hi |-> b, xhi |-> y, m |-> m]
Few == { N("integer", 2, FALSE, 0, FALSE, None), N("number", 2, FALSE, 0, FALSE, None), N("integer", 0, TRUE, 0, FALSE, None), N("integer", 0, FALSE, 2, FALSE, None), N("number", 0, TRUE, 2, TRUE, 3),
         [kind |-> "string", lo |-> 3, hi |-> 1], [kind |-> "string", lo |-> 1, hi |-> 3],
         [kind |-> "object", lo |-> None, hi |-> 1, required |-> 3, properties |-> 3, closed |-> FALSE],
         [kind |-> "object", lo |-> None, hi |-> None, required |-> 2, properties |-> 1, closed |-> TRUE],
         [kind |-> "object", lo |-> 1, hi |-> 3, required |-> 2, properties |-> 2, closed |-> TRUE],
         [kind |-> "array", lo |-> 3, hi |-> 1, tuple |-> None, closed |-> FALSE, how |-> "items", clo |-> None, chi |-> None],
         [kind |-> "array", lo |-> 3, hi |-> None, tuple |-> 2, closed |-> TRUE, how |-> "items", clo |-> None, chi |-> None],
         [kind |-> "array", lo |-> 1, hi |-> 3, tuple |-> 1, closed |-> TRUE, how |-> "items", clo |-> None, chi |-> None],
         [kind |-> "literal", type |-> "string", values |-> <<"null">>, as |-> "enum"],
         [kind |-> "literal", type |-> "string", values |-> <<"null", "string">>, as |-> "enum"],
         Written(TRUE, "{\"type\": \"strin\"}"), Written(TRUE, "{\"type\": \"string\", \"pattern\": \"(a\"}"),
         Written(TRUE, "{\"allOf\": [{\"type\": \"string\"}, {\"type\": \"null\"}]}"), Written(FALSE, "{\"allOf\": [{\"type\": [\"string\", \"null\"]}, {\"type\": \"null\"}]}") }
Places == {"property", "escaped", "pattern", "additional", "items", "prefix", "legacy", "rest", "unevaluated", "contains", "defs", "definitions", "any", "one", "all", "then", "else"}
(* Definitions are only looked for at the root; array-form items are not       *)
(* supported within alternatives and conditions.                               *)
Supported(ps) == /\ \A n \in 2..Len(ps) : ps[n] \notin {"defs", "definitions"}
                 /\ \A n \in 1..Len(ps) : ps[n] \in {"legacy", "rest"} => \A j \in 1..(n-1) : ps[j] \notin {"any", "one", "all", "then", "else", "contains"}

Beside(p, q) == p # q /\ (\/ {p, q} \subseteq {"property", "escaped", "pattern", "additional"}
                           \/ ({p, q} \subseteq {"prefix", "contains", "items"} /\ {p, q} # {"contains", "items"})
                           \/ (p = "defs" /\ q \in {"property", "pattern", "additional"}))

(* Alternatives and conditions are also read by a validator, which takes the   *)
(* array form of items and empty tuples for errors.                            *)
Checked(g, p) == (p \in {"one", "contains"} /\ g.kind = "array") => (g.how # "legacy" /\ g.tuple # 0)

Cases == { [group |-> g, at |-> <<>>, second |-> <<>>] : g \in Groups }
    \cup { [group |-> g, at |-> <<>>, second |-> <<>>, split |-> TRUE] : g \in { x \in Numbers \cup Strings \cup Arrays \cup Objects : x.kind = "array" => ~Is(x.tuple) } }
    \cup { [group |-> x[1], at |-> <<x[2]>>, second |-> <<>>] : x \in { y \in (IF Deep THEN Groups ELSE Few) \X Places : Checked(y[1], y[2]) } }
    \cup { [group |-> g, at |-> ps, second |-> <<>>] : g \in Few, ps \in { q \in Places \X Places : Supported(q) } }
    \cup { [group |-> g, at |-> <<pq[1]>>, second |-> <<pq[2]>>] : g \in Few, pq \in { x \in Places \X Places : Beside(x[1], x[2]) } }
    \cup (IF Deep THEN { [group |-> g, at |-> ps, second |-> <<>>] : g \in { x \in Few : x.kind \in {"number", "object", "array"} }, ps \in { q \in Places \X Places \X Places : Supported(q) } } ELSE {})
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "clash-" \o ToString(n), kind |-> "clash", extra |-> S[n]] ])
=============================================================================
