------------------------------ MODULE RefCases ------------------------------
(* Every place a reference can be written at x every place it can point at x  *)
(* names that need escaping x chains of references. The schema a reference    *)
(* points at accepts something none of its neighbours does, so what the code  *)
(* generates shows where it followed the reference to.                        *)
EXTENDS JsonSchema, TLC, Json, IOUtils, SequencesExt

None == [x \in {} |-> 0]

(* name |-> ways to write it in a pointer in a URL fragment                    *)
Names == [
    foo      |-> [name |-> "foo",      ptr |-> <<"foo", "%66oo">>],
    slash    |-> [name |-> "a/b",      ptr |-> <<"a~1b", "a%7e1b">>],
    tilde    |-> [name |-> "a~b",      ptr |-> <<"a~0b", "a%7E0b">>],
    both     |-> [name |-> "~1/",      ptr |-> <<"~01~1">>],
    percent  |-> [name |-> "%66oo",    ptr |-> <<"%2566oo">>],
    space    |-> [name |-> "a b",      ptr |-> <<"a%20b">>],
    number   |-> [name |-> "1",        ptr |-> <<"1">>],
    keyword  |-> [name |-> "items",    ptr |-> <<"items">>],
    dash     |-> [name |-> "foo-bar",  ptr |-> <<"foo-bar">>],
    dots     |-> [name |-> "a.b",      ptr |-> <<"a.b">>] ]
Plain == {"foo"}

(* The schemas pointed at, a value they accept                                 *)
Bodies == [
    lit |-> [s |-> ("const" :> "T"), w |-> "T"],
    num |-> [s |-> [type |-> "integer", minimum |-> 7, maximum |-> 9], w |-> 8],
    obj |-> [s |-> [type |-> "object", properties |-> [t |-> ("const" :> "T")], required |-> <<"t">>, additionalProperties |-> FALSE], w |-> [t |-> "T"]] ]
Other == ("const" :> "D")
Long(t, at, n) == [ i \in 1..n |-> IF i = at THEN t ELSE Other ]
Ref(p) == ("$ref" :> p)

NameTaking == {"$defs", "definitions", "properties", "nested", "patternProperties", "alt", "inner", "notDeep", "ifDeep"}
(* where no values are generated from                                          *)
Aside == {"not", "notDeep", "notTwice", "if", "ifDeep", "inner", "beside"}
Places == NameTaking \cup Aside \cup {"items", "prefixItems", "legacy", "additionalProperties", "id", "idNested", "idUp", "idThrice", "contains", "anyOf", "oneOf", "prefixLong", "legacyLong", "anyLong", "oneLong", "then", "else"}

(* Where the target lives: keys of the root, properties of the root, a pointer to the target *)
Container(n, t) == (Names[n].name :> t) @@ ("foo2" :> Other) @@ ("T" :> Other) @@ [ x \in { Names[m].name : m \in {"foo", "slash", "percent", "dash", "dots"} } |-> Other ]
Place(pl, n, enc, t) ==
    CASE pl = "$defs"       -> [top |-> ("$defs" :> Container(n, t)), props |-> None, ptr |-> "#/$defs/" \o enc]
      [] pl = "definitions" -> [top |-> ("definitions" :> Container(n, t)), props |-> None, ptr |-> "#/definitions/" \o enc]
      [] pl = "properties"  -> [top |-> None, props |-> Container(n, t), ptr |-> "#/properties/" \o enc]
      [] pl = "nested"      -> [top |-> None, props |-> ("hold" :> [type |-> "object", properties |-> Container(n, t)]), ptr |-> "#/properties/hold/properties/" \o enc]
      [] pl = "patternProperties" -> [top |-> None, props |-> ("hold" :> [type |-> "object", patternProperties |-> (("^[a-z]{3}$") :> t), maxProperties |-> 2]), ptr |-> "#/properties/hold/patternProperties/%5E%5Ba-z%5D%7B3%7D$"]
      [] pl = "alt"         -> [top |-> ("$defs" :> ("hold" :> [type |-> "object", properties |-> Container(n, t)])), props |-> None, ptr |-> "#/$defs/hold/properties/" \o enc]
      [] pl = "inner"       -> [top |-> ("$defs" :> ("hold" :> (Other @@ ("$defs" :> Container(n, t))))), props |-> None, ptr |-> "#/$defs/hold/$defs/" \o enc]
      [] pl = "notDeep"     -> [top |-> None, props |-> ("hold" :> (Other @@ ("not" :> [type |-> "object", properties |-> Container(n, t)]))), ptr |-> "#/properties/hold/not/properties/" \o enc]
      [] pl = "notTwice"    -> [top |-> None, props |-> ("hold" :> (Other @@ ("not" :> [type |-> "object", properties |-> ("end" :> t) @@ ("start" :> Ref("#/properties/hold/not/properties/end"))]))), ptr |-> "#/properties/hold/not/properties/start"]
      [] pl = "not"         -> [top |-> None, props |-> ("hold" :> (Other @@ ("not" :> t))), ptr |-> "#/properties/hold/not"]
      [] pl = "ifDeep"      -> [top |-> None, props |-> ("hold" :> (("if" :> [type |-> "object", properties |-> Container(n, t)]) @@ ("else" :> Other) @@ [enum |-> <<"D", 3>>])), ptr |-> "#/properties/hold/if/properties/" \o enc]
      [] pl = "if"          -> [top |-> None, props |-> ("hold" :> (("if" :> t) @@ ("else" :> Other) @@ [enum |-> <<"D", 3>>])), ptr |-> "#/properties/hold/if"]
      [] pl = "beside"      -> [top |-> ("$ref" :> "#/properties/entry"), props |-> ("foo" :> t), ptr |-> "#/properties/foo"]
      [] pl = "contains"    -> [top |-> None, props |-> ("hold" :> [type |-> "array", contains |-> t, maxItems |-> 2]), ptr |-> "#/properties/hold/contains"]
      [] pl = "anyOf"       -> [top |-> None, props |-> ("hold" :> [anyOf |-> <<Other, t>>]), ptr |-> "#/properties/hold/anyOf/1"]
      [] pl = "oneOf"       -> [top |-> None, props |-> ("hold" :> [oneOf |-> <<t, Other>>]), ptr |-> "#/properties/hold/oneOf/0"]
      [] pl = "items"       -> [top |-> None, props |-> ("hold" :> [type |-> "array", items |-> t]), ptr |-> "#/properties/hold/items"]
      [] pl = "prefixItems" -> [top |-> None, props |-> ("hold" :> [type |-> "array", prefixItems |-> <<Other, t, Other>>]), ptr |-> "#/properties/hold/prefixItems/1"]
      [] pl = "legacy"      -> [top |-> None, props |-> ("hold" :> [type |-> "array", items |-> <<Other, t>>]), ptr |-> "#/properties/hold/items/1"]
      [] pl = "prefixLong"  -> [top |-> None, props |-> ("hold" :> [type |-> "array", prefixItems |-> Long(t, 11, 13)]), ptr |-> "#/properties/hold/prefixItems/10"]
      [] pl = "legacyLong"  -> [top |-> None, props |-> ("hold" :> [type |-> "array", items |-> Long(t, 12, 12)]), ptr |-> "#/properties/hold/items/11"]
      [] pl = "anyLong"     -> [top |-> None, props |-> ("hold" :> [anyOf |-> Long(t, 13, 14)]), ptr |-> "#/properties/hold/anyOf/12"]
      [] pl = "oneLong"     -> [top |-> None, props |-> ("hold" :> [oneOf |-> [ i \in 1..12 |-> IF i = 11 THEN t ELSE ("const" :> i + 100) ]]), ptr |-> "#/properties/hold/oneOf/10"]
      [] pl = "else"        -> [top |-> None, props |-> ("hold" :> (("if" :> [type |-> "null"]) @@ [enum |-> <<"D", "T", 8, [t |-> "T"]>>, then |-> Other] @@ ("else" :> t))), ptr |-> "#/properties/hold/else"]
      [] pl = "then"        -> [top |-> None, props |-> ("hold" :> (("if" :> [type |-> <<"string", "integer", "object">>]) @@ [enum |-> <<TRUE, "T", 8, [t |-> "T"]>>, then |-> t] @@ ("else" :> [type |-> "boolean"]))), ptr |-> "#/properties/hold/then"]
      [] pl = "additionalProperties" -> [top |-> None, props |-> ("hold" :> [type |-> "object", additionalProperties |-> t]), ptr |-> "#/properties/hold/additionalProperties"]
      [] pl = "id"          -> [top |-> ("$defs" :> ("hold" :> (("$id" :> "http://example.com/t.json") @@ t))), props |-> None, ptr |-> "http://example.com/t.json"]
      [] pl = "idNested"    -> [top |-> ("$defs" :> ("hold" :> (("$id" :> "http://example.com/root/sub/m.json") @@ ("$defs" :> ("inner" :> (("$id" :> "n.json") @@ t)))))), props |-> None, ptr |-> "http://example.com/root/sub/n.json"]
      [] pl = "idUp"        -> [top |-> ("$id" :> "http://example.com/one/r.json") @@ ("$defs" :> ("hold" :> (("$id" :> "two/m.json") @@ ("$defs" :> ("inner" :> (("$id" :> "three/n.json") @@ t)))))), props |-> None, ptr |-> "http://example.com/one/two/three/n.json"]
      [] pl = "idThrice"    -> [top |-> ("$id" :> "http://example.com/one/r.json") @@ ("$defs" :> ("hold" :> (("$id" :> "two/m.json") @@ ("$defs" :> ("inner" :> (("$id" :> "/three/n.json") @@ ("$defs" :> ("last" :> (("$id" :> "o.json") @@ t))))))))), props |-> None, ptr |-> "/three/o.json"]

(* Where the reference is written                                              *)
Sites == {"property", "items", "prefixItems", "additional", "pattern", "contains", "allOf", "allOfWith", "anyOf", "oneOf", "not", "then", "else", "if", "root", "deep"}
Obj(k, s) == [type |-> "object", properties |-> (k :> s), required |-> <<k>>]
Site(si, r, w) ==
    CASE si = "property"    -> [s |-> r, w |-> w]
      [] si = "items"       -> [s |-> [type |-> "array", items |-> r, minItems |-> 1, maxItems |-> 3], w |-> <<w>>]
      [] si = "prefixItems" -> [s |-> [type |-> "array", prefixItems |-> <<Other, r>>, items |-> FALSE], w |-> <<"D", w>>]
      [] si = "additional"  -> [s |-> [type |-> "object", additionalProperties |-> r, minProperties |-> 1], w |-> ("x" :> w)]
      [] si = "pattern"     -> [s |-> [type |-> "object", patternProperties |-> ("^[a-z]{4}$" :> r), minProperties |-> 1], w |-> ("abcd" :> w)]
      [] si = "contains"    -> [s |-> [type |-> "array", contains |-> r, maxItems |-> 3], w |-> <<w>>]
      [] si = "allOf"       -> [s |-> [allOf |-> <<r>>], w |-> w]
      [] si = "allOfWith"   -> [s |-> [allOf |-> <<[type |-> <<"string", "integer", "object">>], r>>], w |-> w]
      [] si = "anyOf"       -> [s |-> [anyOf |-> <<r, [type |-> "null"]>>], w |-> w]
      [] si = "oneOf"       -> [s |-> [oneOf |-> <<[type |-> "null"], r>>], w |-> w]
      [] si = "not"         -> [s |-> [enum |-> <<"T", "U">>] @@ ("not" :> r), w |-> "U"]
      [] si = "then"        -> [s |-> [type |-> <<"null", "string">>, then |-> r] @@ ("if" :> [type |-> "string"]), w |-> w]
      [] si = "else"        -> [s |-> [type |-> <<"null", "string">>] @@ ("if" :> [type |-> "null"]) @@ ("else" :> r), w |-> w]
      [] si = "if"          -> [s |-> [enum |-> <<"T", "U">>, then |-> ("const" :> "T")] @@ ("if" :> r) @@ ("else" :> ("const" :> "U")), w |-> w]
      [] si = "deep"        -> [s |-> Obj("a", [type |-> "array", items |-> Obj("b", r), minItems |-> 1, maxItems |-> 2]), w |-> [a |-> <<[b |-> w]>>]]

(* Chains run over definitions of their own                                    *)
Links(k, ptr) == [ x \in { "link" \o ToString(j) : j \in 1..k } |-> IF x = "link1" THEN Ref(ptr) ELSE IF x = "link2" THEN Ref("#/definitions/link1") ELSE Ref("#/definitions/link2") ]
Entry(k, ptr) == IF k = 0 THEN ptr ELSE "#/definitions/link" \o ToString(k)

With(f, k, g) == (k :> (Field(f, k, None) @@ g)) @@ f

Tuples == { t \in Sites \X Places \X (DOMAIN Names) \X (1..2) \X (DOMAIN Bodies) \X (0..3) :
              /\ t[4] <= Len(Names[t[3]].ptr)
              /\ t[2] \notin NameTaking => (t[3] = "foo" /\ t[4] = 1)
              /\ t[2] = "patternProperties" => (t[3] = "foo" /\ t[4] = 1)
              /\ t[1] \in {"not", "then", "else", "if"} => t[5] = "lit"
              /\ t[1] = "root" => (t[2] \in {"$defs", "definitions", "alt"})
              /\ t[1] \in {"if", "not", "oneOf", "contains"} => t[2] \notin {"legacy", "legacyLong"}   \* validated by 2020-12, which has no such thing
              /\ t[1] \notin {"property", "allOf", "if"} => t[3] \in {"foo", "slash", "percent", "space"}
              /\ t[6] > 1 => t[3] = "foo" }

Case(t) ==
    LET body == Bodies[t[5]]
        place == Place(t[2], t[3], Names[t[3]].ptr[t[4]], body.s)
        r == Ref(Entry(t[6], place.ptr))
        links == Links(t[6], place.ptr)
        top == IF t[6] = 0 THEN place.top ELSE With(place.top, "definitions", links)
        site == Site(IF t[1] = "root" THEN "property" ELSE t[1], r, body.w)
    IN [ id |-> "ref" \o ToString(t),
         schema |-> IF t[1] = "root" THEN top @@ r
                    ELSE IF t[2] = "beside" THEN top @@ [properties |-> ("entry" :> [type |-> "object", properties |-> ("use" :> site.s), required |-> <<"use">>, additionalProperties |-> FALSE]) @@ place.props]
                    ELSE top @@ [type |-> "object", properties |-> ("use" :> site.s) @@ place.props, required |-> <<"use">>],
         wit |-> <<IF t[1] = "root" THEN body.w ELSE ("use" :> site.w)>>,
         cover |-> IF t[1] = "root" THEN <<>> ELSE
                   LET only(x) == [properties |-> ("use" :> x), required |-> <<"use">>]
                   IN IF t[1] \in {"anyOf", "oneOf"} THEN <<only(body.s), only([type |-> "null"])>> ELSE IF t[1] = "if" THEN <<only(("const" :> "T")), only(("const" :> "U"))>> ELSE <<>>,
         samples |-> 40, maxOut |-> 4, dangling |-> FALSE ]

(* References to nothing.                                                      *)
DanglingPointers == {"#/$defs/nope", "#/definitions/foo", "#/properties/nope", "#/$defs/foo/properties/a", "#/$defs/list/prefixItems/7", "#/$defs/fo", "#/nope", "#/$defs/foo%2Ft", "#nope"}
DanglingSites == {"property", "items", "allOf", "anyOf", "oneOf", "not", "then", "else", "root", "contains"}
DanglingCase(t) ==
    LET site == Site(IF t[1] = "root" THEN "property" ELSE t[1], Ref(t[2]), "T")
        defs == ("$defs" :> [foo |-> Other, list |-> [type |-> "array", prefixItems |-> <<Other>>]])
    IN [ id |-> "dangling" \o ToString(t),
         schema |-> IF t[1] = "root" THEN defs @@ Ref(t[2]) ELSE defs @@ [type |-> "object", properties |-> ("use" :> site.s), required |-> <<"use">>],
         wit |-> <<>>, cover |-> <<>>, samples |-> 20, maxOut |-> 4, dangling |-> TRUE ]

Cases == { Case(t) : t \in Tuples }
DanglingCases == { DanglingCase(t) : t \in DanglingSites \X DanglingPointers }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases) \o SetToSeq(DanglingCases))
=============================================================================
