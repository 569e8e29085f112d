------------------------------- MODULE Worlds -------------------------------
(* Small worlds: a base schema that only the listed values satisfy, and parts  *)
(* of which it is known which of these values satisfy them. What combinators   *)
(* mean is then a matter of sets: the meaning of a combination is worked out   *)
(* here along with its JSON.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Thorough == IOEnv.TIER = "thorough"
Str(n) == ToString(n)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Kw(k, v) == "\"" \o k \o "\": " \o v
Braces(q) == "{" \o Join(q) \o "}"
List(q) == "[" \o Join(q) \o "]"

(* Expressions: k: their keywords, s: the positions of the values that satisfy *)
(* them, alts: for each way to take the choices they offer the values it leaves*)
E(k, s) == [k |-> k, s |-> s, alts |-> {s}]
J(e) == Braces(<<e.k>>)
Js(q) == List([ i \in DOMAIN q |-> J(q[i]) ])
RECURSIVE Cross(_)
Cross(q) == IF Len(q) = 1 THEN q[1].alts ELSE { x \cap y : x \in q[1].alts, y \in Cross(Tail(q)) }
AllOf(D, q) == [k |-> Kw("allOf", Js(q)), s |-> { d \in D : \A i \in DOMAIN q : d \in q[i].s }, alts |-> Cross(q)]
AnyOf(D, q) == [k |-> Kw("anyOf", Js(q)), s |-> UNION { q[i].s : i \in DOMAIN q }, alts |-> UNION { q[i].alts : i \in DOMAIN q }]
Ones(D, q) == { d \in D : Cardinality({ i \in DOMAIN q : d \in q[i].s }) = 1 }
OneOf(D, q) == [k |-> Kw("oneOf", Js(q)), s |-> Ones(D, q), alts |-> { x \cap Ones(D, q) : x \in UNION { q[i].alts : i \in DOMAIN q } }]
NotOf(D, e) == [k |-> Kw("not", J(e)), s |-> D \ e.s, alts |-> {D \ e.s}]
IfOf(D, c, t, f) == [k |-> Join(<<Kw("if", J(c)), Kw("then", J(t)), Kw("else", J(f))>>), s |-> (c.s \cap t.s) \cup ((D \ c.s) \cap f.s),
                     alts |-> { c.s \cap x : x \in t.alts } \cup { (D \ c.s) \cap x : x \in f.alts }]
ThenOf(D, c, t) == [k |-> Join(<<Kw("if", J(c)), Kw("then", J(t))>>), s |-> (c.s \cap t.s) \cup (D \ c.s), alts |-> { c.s \cap x : x \in t.alts } \cup {D \ c.s}]
ElseOf(D, c, f) == [k |-> Join(<<Kw("if", J(c)), Kw("else", J(f))>>), s |-> c.s \cup ((D \ c.s) \cap f.s), alts |-> { (D \ c.s) \cap x : x \in f.alts } \cup {c.s}]
Both(e, f) == [k |-> Join(<<e.k, f.k>>), s |-> e.s \cap f.s, alts |-> Cross(<<e, f>>)]
Ref(name, e) == [e EXCEPT !.k = Kw("$ref", "\"#/$defs/" \o name \o "\"")]

(* A case: the base next to (or conjoined with) an expression                  *)
World(base, values) == [base |-> base, values |-> values]
Dom(w) == DOMAIN w.values
Const(w, i) == Braces(<<Kw("const", w.values[i])>>)
RECURSIVE Defs(_)
Defs(ds) == Join([ i \in DOMAIN ds |-> Kw(ds[i][1], J(ds[i][2])) ])
(* e: the expression, ds: definitions, pieces: sets of values each of which     *)
(* has to contribute one                                                        *)
Piece(w, s) == "{" \o Kw("enum", List([ i \in 1..Cardinality(s) |-> w.values[SetToSeq(s)[i]] ])) \o "}"
Case(w, e, ds, pieces, samples) ==
    LET sat == e.s \cap Dom(w)
        demanded == sat # {} /\ \A x \in e.alts : x \cap Dom(w) # {}
    IN [schema |-> Braces(<<w.base, e.k>> \o (IF ds = <<>> THEN <<>> ELSE <<Kw("$defs", "{" \o Defs(ds) \o "}")>>)),
        wit |-> IF demanded THEN <<w.values[CHOOSE i \in sat : TRUE]>> ELSE <<>>,
        covers |-> IF demanded THEN SetToSeq({ Piece(w, p \cap sat) : p \in { p \in pieces \cup {sat} : p \cap sat # {} } }) ELSE <<>>,
        samples |-> IF sat = {} THEN 10 ELSE samples, steps |-> IF sat = {} THEN 1000000 ELSE 0]
WriteAs(name, cases) ==
    LET q == SetToSeq(cases)
    IN ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN q |-> [id |-> name \o "-" \o Str(n), kind |-> "small", extra |-> q[n]] ])

Write(cases) == WriteAs("world", cases)

(* The worlds                                                                   *)
NumW == World("\"type\": \"integer\", \"minimum\": 0, \"maximum\": 7", [ i \in 1..8 |-> Str(i - 1) ])
LitW == World("\"enum\": [0, 1, 2, 3, 4, 5, 6, 7]", [ i \in 1..8 |-> Str(i - 1) ])
N == 1..8
P(S) == { n + 1 : n \in S }                     \* positions of numbers
NumLeaves ==
    [ min |-> E("\"minimum\": 3", P(3..7)), max |-> E("\"maximum\": 4", P(0..4)), xmin |-> E("\"exclusiveMinimum\": 1", P(2..7)), xmax |-> E("\"exclusiveMaximum\": 6", P(0..5)),
      even |-> E("\"multipleOf\": 2", P({0, 2, 4, 6})), three |-> E("\"multipleOf\": 3", P({0, 3, 6})),
      enum |-> E("\"enum\": [1, 2, 4, 7, \"x\", null]", P({1, 2, 4, 7})), const |-> E("\"const\": 4", P({4})),
      nconst |-> E("\"not\": {\"const\": 4}", P((0..7) \ {4})), nenum |-> E("\"not\": {\"enum\": [0, 4, 6]}", P({1, 2, 3, 5, 7})),
      nmin |-> E("\"not\": {\"minimum\": 5}", P(0..4)), nmax |-> E("\"not\": {\"maximum\": 2}", P(3..7)), odd |-> E("\"not\": {\"multipleOf\": 2}", P({1, 3, 5, 7})) ]

ObjV == << "{}", "{\"a\": 0}", "{\"a\": 1}", "{\"b\": 0}", "{\"a\": 0, \"b\": 0}", "{\"a\": 1, \"b\": 0}", "{\"b\": 1}", "{\"a\": 0, \"b\": 1}", "{\"a\": 1, \"b\": 1}" >>
ObjW == World("\"type\": \"object\", \"properties\": {\"a\": {\"enum\": [0, 1]}, \"b\": {\"enum\": [0, 1]}}, \"additionalProperties\": false", ObjV)
O == 1..9
A(i) == (i - 1) % 3      \* 0: no a, 1: a is 0, 2: a is 1
B(i) == (i - 1) \div 3
ObjLeaves ==
    [ a |-> E("\"required\": [\"a\"]", { i \in O : A(i) # 0 }), b |-> E("\"required\": [\"b\"]", { i \in O : B(i) # 0 }),
      a1 |-> E("\"properties\": {\"a\": {\"const\": 1}}, \"required\": [\"a\"]", { i \in O : A(i) = 2 }),
      b0 |-> E("\"properties\": {\"b\": {\"const\": 0}}, \"required\": [\"b\"]", { i \in O : B(i) = 1 }),
      a1o |-> E("\"properties\": {\"a\": {\"const\": 1}}", { i \in O : A(i) # 1 }), b0o |-> E("\"properties\": {\"b\": {\"maximum\": 0}}", { i \in O : B(i) # 2 }),
      na |-> E("\"not\": {\"required\": [\"a\"]}", { i \in O : A(i) = 0 }),
      few |-> E("\"maxProperties\": 1", { i \in O : A(i) = 0 \/ B(i) = 0 }), some |-> E("\"minProperties\": 1", O \ {1}) ]

MixV == << "null", "true", "false", "0", "1.5", "\"a\"", "\"b\"", "[]", "{}" >>
MixW == World("\"enum\": " \o List(MixV), MixV)
M == 1..9
MixLeaves ==
    [ str |-> E("\"type\": \"string\"", {6, 7}), num |-> E("\"type\": \"number\"", {4, 5}), int |-> E("\"type\": \"integer\"", {4}),
      list |-> E("\"type\": [\"null\", \"boolean\", \"array\"]", {1, 2, 3, 8}), enum |-> E("\"enum\": [null, 1.5, \"b\", {}, 3]", {1, 5, 7, 9}),
      ca |-> E("\"const\": \"a\"", {6}), cn |-> E("\"const\": null", {1}), nc |-> E("\"not\": {\"const\": null}", M \ {1}),
      ns |-> E("\"not\": {\"type\": \"string\"}", M \ {6, 7}), nl |-> E("\"not\": {\"type\": [\"boolean\", \"object\"]}", M \ {2, 3, 9}), ne |-> E("\"not\": {\"enum\": [0, \"a\", []]}", M \ {4, 6, 8}) ]

(* Values that are easily taken for one another (leaves by the names of MixLeaves) *)
AlikeV == << "1", "\"1\"", "true", "\"true\"", "null", "\"null\"", "[1]", "[\"1\"]", "\"[1]\"", "{\"a\": 1}", "{\"a\": \"1\"}", "\"\"", "[]", "0", "false" >>
AlikeW == World("\"enum\": " \o List(AlikeV), AlikeV)
K == 1..15
AlikeEnum(S) == LET q == SetToSortSeq(S, <) IN "\"enum\": " \o List([ i \in DOMAIN q |-> AlikeV[q[i]] ])
AlikeLeaves ==
    [ str |-> E("\"type\": \"string\"", {2, 4, 6, 9, 12}), num |-> E("\"type\": [\"array\", \"number\"]", {1, 7, 8, 13, 14}), int |-> E(AlikeEnum({2, 3, 5, 8, 10, 14}), {2, 3, 5, 8, 10, 14}),
      list |-> E("\"type\": [\"boolean\", \"integer\", \"object\", \"null\"]", {1, 3, 5, 10, 11, 14, 15}), enum |-> E(AlikeEnum({1, 4, 6, 7, 9, 11, 13, 15}), {1, 4, 6, 7, 9, 11, 13, 15}),
      ca |-> E("\"const\": \"1\"", {2}), cn |-> E("\"const\": [1]", {7}), nc |-> E("\"not\": {\"const\": 1}", K \ {1}),
      ns |-> E("\"not\": {\"type\": \"string\"}", K \ {2, 4, 6, 9, 12}), nl |-> E("\"not\": {" \o AlikeEnum({1, 4, 5, 7, 10, 12}) \o "}", {2, 3, 6, 8, 9, 11, 13, 14, 15}),
      ne |-> E("\"not\": {" \o AlikeEnum({2, 3, 6, 8, 9, 11}) \o "}", {1, 4, 5, 7, 10, 12, 13, 14, 15}) ]

(* Arrays and objects that hold one or two values, described by their keywords *)
ArrV == << "[1]", "[2]", "[1, 1]", "[1, 2]", "[2, 1]", "[2, 2]" >>
ArrW == World("\"type\": \"array\", \"items\": {\"enum\": [1, 2]}, \"minItems\": 1, \"maxItems\": 2", ArrV)
ArrLeaves ==
    [ str |-> E("\"maxItems\": 1", {1, 2}), num |-> E("\"minItems\": 2", 3..6), int |-> E("\"items\": {\"const\": 1}", {1, 3}),
      list |-> E("\"enum\": [[1], [1, 2], [2, 2], \"[2]\"]", {1, 4, 6}), enum |-> E("\"enum\": [[2, 1], [1], [1, 1], [3]]", {5, 1, 3}),
      ca |-> E("\"const\": [1]", {1}), cn |-> E("\"const\": [2, 1]", {5}), nc |-> E("\"not\": {\"const\": [1, 2]}", (1..6) \ {4}),
      ns |-> E("\"not\": {\"maxItems\": 1}", 3..6), nl |-> E("\"not\": {\"enum\": [[1], [2, 2]]}", (1..6) \ {1, 6}), ne |-> E("\"not\": {\"enum\": [[2], [1, 1], 5]}", (1..6) \ {2, 3}) ]
Leaves(L) == { L[n] : n \in DOMAIN L }
Pick(L, names) == { L[n] : n \in names }
=============================================================================
