------------------------------ MODULE DocCases ------------------------------
(* Graphs of documents that all look alike (the same pointers lead to         *)
(* something else in each of them), linked in all kinds of ways, and the work *)
(* list machine checked on them. A reference is written "@document#pointer";  *)
(* how that reads where it is written (relative, absolute) is up to the form. *)
EXTENDS DocGraph, TLC, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Have(f, k) == k \in DOMAIN f

File == [root |-> "d/root.json", a |-> "d/a.json", b |-> "d/sub/b.json", c |-> "c.json", missing |-> "d/missing.json", broken |-> "d/broken.json"]
Docs == {"root", "a", "b", "c"}
Ref(to, ptr) == ("$ref" :> ("@" \o File[to] \o "#" \o ptr))
Local(ptr) == ("$ref" :> ("#" \o ptr))
Const(x) == ("const" :> x)

To(d, p) == [to |-> d, ptr |-> p]
None == To("", "")
Links == [a |-> {None, To("b", "/$defs/y"), To("b", "/$defs/l"), To("c", ""), To("root", "/$defs/x"), To("missing", "/$defs/x")},
          b |-> {None, To("c", "/$defs/z"), To("c", "/$defs/l"), To("a", ""), To("a", "/$defs/l"), To("broken", "/$defs/y")},
          c |-> {None, To("root", "/$defs/z"), To("a", "/$defs/y"), To("b", "/$defs/l"), To("b", "")}]
Pointers == {"", "/$defs/y", "/$defs/z", "/$defs/l"} \cup IF Thorough THEN {"/$defs/x", "/properties/self", "/definitions/a~1b"} ELSE {"/properties/self"}
Ways == {"plain", "allOf", "allOfTwo", "anyOf", "oneOf", "items", "then", "deep"}

(* d -> the link it has under $defs/l                                          *)
LinkMaps == { [a |-> x, b |-> y, c |-> z] : x \in Links.a, y \in Links.b, z \in Links.c }
Link(m, d) == IF Have(m, d) THEN m[d] ELSE None
(* Chains of nothing but references must end                                   *)
RECURSIVE Chain(_, _, _)
Chain(m, d, n) == IF n = 0 THEN FALSE ELSE IF Link(m, d).ptr # "/$defs/l" THEN TRUE ELSE Chain(m, Link(m, d).to, n - 1)
Ends(m) == \A d \in DOMAIN m : Chain(m, d, 4)
(* ... and otherwise documents that are part of themselves are optional where  *)
(* they would be, and have no type: the text that says there is a cycle is not *)
(* against the schema                                                          *)
Whole(m, d) == IF Link(m, d).ptr = "" THEN {Link(m, d).to} ELSE IF Link(m, d).ptr = "/$defs/l" THEN {Link(m, d).to} ELSE {}
RECURSIVE From(_, _, _)
From(m, ds, n) == IF n = 0 THEN ds ELSE From(m, ds \cup UNION { Whole(m, d) : d \in ds }, n - 1)
IsRecursive(m) == \E d \in DOMAIN m : d \in From(m, Whole(m, d), 5)
RecursiveMaps == { m \in LinkMaps : IsRecursive(m) }
Recursive(m) == m \in RecursiveMaps
EndingMaps == { m \in LinkMaps : Ends(m) }

Document(m, d, extra) ==
    LET l == Link(m, d)
        rec == Recursive(m)
        own == [x |-> Const("x@" \o d), y |-> Local("/$defs/x"), l |-> IF l = None THEN Const("none@" \o d) ELSE Ref(l.to, l.ptr),
                z |-> [type |-> "object", properties |-> [p |-> Local("/$defs/y"), q |-> Local("/definitions/a~1b")], required |-> <<"p", "q">>]]
    IN ("$defs" :> own) @@ ("definitions" :> ("a/b" :> Const("ab@" \o d))) @@
       [properties |-> [me |-> Const(d), self |-> Local("/$defs/y"), link |-> Local("/$defs/l")] @@ extra.properties,
        required |-> (IF rec THEN <<"me", "self">> ELSE <<"me", "self", "link">>) \o extra.required] @@
       (IF rec THEN [x \in {} |-> 0] ELSE [type |-> "object"])
NoMore == [properties |-> [x \in {} |-> 0], required |-> <<>>]

Use(way, r) ==
    CASE way = "plain"    -> r
      [] way = "allOf"    -> [allOf |-> <<r>>]
      [] way = "allOfTwo" -> [allOf |-> <<[title |-> "T"], r, Ref("a", "/definitions/a~1b")>>]
      [] way = "anyOf"    -> [anyOf |-> <<r, Const("alt")>>]
      [] way = "oneOf"    -> [oneOf |-> <<Const("alt"), r>>]
      [] way = "items"    -> [type |-> "array", items |-> r, minItems |-> 1, maxItems |-> 3]
      [] way = "then"     -> [type |-> <<"null", "string", "object">>, then |-> r] @@ ("if" :> [type |-> <<"string", "object">>])
      [] way = "deep"     -> [type |-> "object", properties |-> [n |-> [type |-> "object", additionalProperties |-> r, minProperties |-> 1, maxProperties |-> 2]], required |-> <<"n">>]

Failing == {"missing", "broken"}
Graph(m, u, v) ==
    [root |-> "root", fails |-> <<"missing", "broken">>,
     edges |-> [ d \in Docs |-> IF d = "root" THEN SetToSeq({u.to, v} \ {""}) ELSE IF Link(m, d) = None THEN <<>> ELSE <<Link(m, d).to>> ]]

Inputs == { [m |-> m, u |-> To(t, p), v |-> v, way |-> w] : m \in EndingMaps, t \in Docs, p \in Pointers, v \in (IF Thorough THEN {"", "a", "c"} ELSE {"", "c"}), w \in Ways \ {"allOfTwo"} }
     \cup { [m |-> m, u |-> To("a", "/definitions/a~1b"), v |-> v, way |-> "allOfTwo"] : m \in EndingMaps, v \in {"", "b"} }
(* the root has no link of its own, and is not looked at as a whole            *)
Sensible(i) == /\ i.u.to = "root" => i.u.ptr \in {"/$defs/y", "/$defs/z"}
               /\ i.m.a.to = "missing" /\ i.m.b.to = "broken" => i.m.c = None
               \* what can not be had is only looked at where it leaves the rest alone
               /\ Broken(Graph(i.m, i.u, i.v)) => i.way \in {"plain", "allOf", "allOfTwo", "items", "deep"}
               \* the other ways want to know which alternative holds
               /\ Recursive(i.m) => (i.way \in {"plain", "items", "deep", "allOf"})

SensibleInputs == { x \in Inputs : Sensible(x) }

Stores == {"file", "http", "mixed"}
Entries == [file |-> {"file", "text", "cwd"}, http |-> {"text"}, mixed |-> {"file", "text"}]
Forms == {"rel", "abs"}
Settings == { s \in [store : Stores, entry : {"file", "text", "cwd"}, form : Forms] : s.entry \in Entries[s.store] }

Case(i, s, n) ==
    LET uses == [properties |-> ("u" :> Use(i.way, Ref(i.u.to, i.u.ptr))) @@ (IF i.v = "" THEN [x \in {} |-> 0] ELSE ("v" :> Ref(i.v, "/$defs/z"))),
                 required |-> <<"u">> \o (IF i.v = "" THEN <<>> ELSE <<"v">>)]
        only(x) == [properties |-> ("u" :> x), required |-> <<"u">>]
    IN [id |-> "doc" \o ToString(n), kind |-> "docs", samples |-> 6, maxOut |-> 3,
        extra |-> s @@ [strict |-> i.way \in {"plain", "items", "deep", "allOf", "allOfTwo"}, must |-> i.way \in {"plain", "items", "deep"}, root |-> File["root"], fails |-> [ f \in {File["missing"], File["broken"]} |-> IF f = File["missing"] THEN "missing" ELSE "broken" ]],
        schema |-> Document(i.m, "root", uses),
        docs |-> [ f \in { File[d] : d \in {"a", "b", "c"} } |-> LET d == CHOOSE x \in {"a", "b", "c"} : File[x] = f IN Document(i.m, d, NoMore) ],
        cover |-> IF i.way \in {"anyOf", "oneOf"} THEN <<only(Const("alt")), only(Ref(i.u.to, i.u.ptr))>>
                  ELSE IF i.way = "then" THEN <<only([type |-> "null"]), only([type |-> <<"string", "object">>])>> ELSE <<>>]

-----------------------------------------------------------------------------
(* The machine: asks for documents in any order, ends, and has then asked for  *)
(* all that is reachable, and nothing else, whatever the order.                *)
VARIABLES g, asked, trail
vars == <<g, asked, trail>>
Graphs == { Graph(i.m, i.u, i.v) : i \in SensibleInputs }
Init == g \in Graphs /\ asked = {g.root} /\ trail = <<>>
Ask(d) == d \in Wanted(g, asked) /\ asked' = asked \cup {d} /\ trail' = Append(trail, d) /\ UNCHANGED g
Next == \E d \in Docs \cup Failing : Ask(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A j, k \in DOMAIN trail : j # k => trail[j] # trail[k]
Sound == asked \subseteq Reachable(g)
Complete == ~ENABLED Next => asked = Reachable(g)
Stops == <>[](~ENABLED Next)

Chosen == LET all == SetToSeq(SensibleInputs)
              ss == SetToSeq(Settings)
              step == IF Thorough THEN 1 ELSE 5
          IN [ n \in 1..(Len(all) \div step) |-> Case(all[n * step], ss[((n * 5) % Len(ss)) + 1], n) ]
ASSUME ndJsonSerialize(IOEnv.OUT, Chosen)
=============================================================================
