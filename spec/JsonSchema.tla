----------------------------- MODULE JsonSchema -----------------------------
(* The meaning of a JSON schema, as far as go-chaff claims to support it.     *)
(*                                                                            *)
(* A VALUE is a record with a tag t and a canonical text c (two JSON values   *)
(* are equal iff their canonical texts are):                                  *)
(*   [t |-> "null"|"bool", c]                                                 *)
(*   [t |-> "num",  c, r, i, m]   r: position among the numeric constants of  *)
(*        the case (2*k: equal to the k-th one, odd: between two of them),    *)
(*        i: integral, m: the multipleOf constants it is an exact multiple of *)
(*   [t |-> "str",  c, n, p, f]   n: length in code points, p: the patterns   *)
(*        of the case it matches, f: the formats of the case it satisfies     *)
(*   [t |-> "arr",  c, v]         v: sequence of values                       *)
(*   [t |-> "obj",  c, v]         v: sequence of [k, p, v]: key, the patterns *)
(*        of the case the key matches, value                                  *)
(*   [t |-> "nothing", c]         a text that says a reference is dangling    *)
(*                                                                            *)
(* A SCHEMA is a record with the keywords of the schema, with numeric         *)
(* constants replaced by their rank (bounds) or canonical text (multipleOf),  *)
(* const/enum by canonical texts, type by a sequence of types, a boolean      *)
(* schema false by [never |-> TRUE] and $ref by [doc, path], where path is    *)
(* the sequence of unescaped pointer tokens.                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Has(s, k) == k \in DOMAIN s
Rng(q) == { q[j] : j \in DOMAIN q }
Field(s, k, default) == IF Has(s, k) THEN s[k] ELSE default

-----------------------------------------------------------------------------
(* Walking a JSON pointer through a document. The array form of items is      *)
(* kept under the key itemsTuple.                                             *)
Digits == <<"0","1","2","3","4","5","6","7","8","9","10","11","12","13","14","15","16","17","18","19">>
IsIndex(tok) == tok \in Rng(Digits)
IndexOf(tok) == CHOOSE n \in 1..20 : Digits[n] = tok

SeqKeywords == {"allOf", "anyOf", "oneOf", "prefixItems", "itemsTuple"}
NameKeywords == {"properties", "patternProperties", "$defs", "definitions"}
SchemaKeywords == {"items", "additionalProperties", "contains", "additionalItems", "unevaluatedItems", "not", "if", "then", "else"}
(* What a reference to nothing points at: only a text that says so is right    *)
Nothing == [nothing |-> TRUE]

RECURSIVE Walk(_, _)
Walk(s, path) ==
    IF path = <<>> THEN s
    ELSE LET tok == IF Head(path) = "items" /\ Has(s, "itemsTuple") THEN "itemsTuple" ELSE Head(path) IN
         IF ~Has(s, tok) THEN Nothing
         ELSE IF tok \in SeqKeywords
         THEN IF Len(path) > 1 /\ IsIndex(path[2]) /\ IndexOf(path[2]) \in DOMAIN s[tok]
              THEN Walk(s[tok][IndexOf(path[2])], Tail(Tail(path)))
              ELSE Nothing
         ELSE IF tok \in NameKeywords
         THEN IF Len(path) > 1 /\ Has(s[tok], path[2]) THEN Walk(s[tok][path[2]], Tail(Tail(path))) ELSE Nothing
         ELSE IF tok \in SchemaKeywords THEN Walk(s[tok], Tail(path))
         ELSE Nothing

Resolve(docs, ref) == Walk(docs[ref.doc], ref.path)

-----------------------------------------------------------------------------
TypeOk(ty, v) ==
    CASE ty = "null"    -> v.t = "null"
      [] ty = "boolean" -> v.t = "bool"
      [] ty = "string"  -> v.t = "str"
      [] ty = "number"  -> v.t = "num"
      [] ty = "integer" -> v.t = "num" /\ v.i
      [] ty = "array"   -> v.t = "arr"
      [] ty = "object"  -> v.t = "obj"
      [] OTHER          -> FALSE

NumberOk(s, v) ==
    v.t = "num" =>
        /\ Has(s, "minimum")          => v.r >= s.minimum
        /\ Has(s, "maximum")          => v.r <= s.maximum
        /\ Has(s, "exclusiveMinimum") => v.r >  s.exclusiveMinimum
        /\ Has(s, "exclusiveMaximum") => v.r <  s.exclusiveMaximum
        /\ Has(s, "multipleOf")       => s.multipleOf \in Rng(v.m)

StringOk(s, v) ==
    v.t = "str" =>
        /\ Has(s, "minLength") => v.n >= s.minLength
        /\ Has(s, "maxLength") => v.n <= s.maxLength
        /\ Has(s, "pattern")   => s.pattern \in Rng(v.p)
        /\ Has(s, "format")    => s.format \in Rng(v.f)

RECURSIVE Valid(_, _, _)

(* The tuple part of an array schema: prefixItems, or items in its array form *)
Prefix(s) == IF Has(s, "prefixItems") THEN s.prefixItems
             ELSE IF Has(s, "itemsTuple") THEN s.itemsTuple
             ELSE <<>>

(* What items after the tuple have to satisfy *)
RestOk(docs, s, v) ==
    IF Has(s, "items") THEN Valid(docs, s.items, v)
    ELSE IF Has(s, "itemsTuple") /\ Has(s, "additionalItems")
         THEN Valid(docs, s.additionalItems, v)
    ELSE TRUE

ContainsCount(docs, s, v) ==
    Cardinality({ j \in DOMAIN v.v : Valid(docs, s.contains, v.v[j]) })

ArrayOk(docs, s, v) ==
    v.t = "arr" =>
        LET pre == Prefix(s)
            len == Len(v.v)
            restCovered == Has(s, "items") \/ (Has(s, "itemsTuple") /\ Has(s, "additionalItems"))
        IN
        /\ Has(s, "minItems") => len >= s.minItems
        /\ Has(s, "maxItems") => len <= s.maxItems
        /\ Has(s, "uniqueItems") =>
              (s.uniqueItems => Cardinality({ v.v[j].c : j \in 1..len }) = len)
        /\ \A j \in 1..len :
              IF j <= Len(pre) THEN Valid(docs, pre[j], v.v[j]) ELSE RestOk(docs, s, v.v[j])
        /\ Has(s, "contains") =>
              LET n == ContainsCount(docs, s, v) IN
              /\ n >= Field(s, "minContains", 1)
              /\ Has(s, "maxContains") => n <= s.maxContains
        /\ (Has(s, "unevaluatedItems") /\ ~restCovered) =>
              \A j \in (Len(pre) + 1)..len :
                  \/ Has(s, "contains") /\ Valid(docs, s.contains, v.v[j])
                  \/ Valid(docs, s.unevaluatedItems, v.v[j])

ObjectOk(docs, s, v) ==
    v.t = "obj" =>
        LET keys == { v.v[j].k : j \in DOMAIN v.v }
            props == Field(s, "properties", [x \in {} |-> 0])
            pats == Field(s, "patternProperties", [x \in {} |-> 0])
        IN
        /\ Has(s, "required") => Rng(s.required) \subseteq keys
        /\ Has(s, "minProperties") => Cardinality(keys) >= s.minProperties
        /\ Has(s, "maxProperties") => Cardinality(keys) <= s.maxProperties
        /\ \A j \in DOMAIN v.v :
              LET e == v.v[j]
                  hit == { q \in DOMAIN pats : q \in Rng(e.p) }
              IN
              /\ e.k \in DOMAIN props => Valid(docs, props[e.k], e.v)
              /\ \A q \in hit : Valid(docs, pats[q], e.v)
              /\ (Has(s, "additionalProperties") /\ e.k \notin DOMAIN props /\ hit = {}) =>
                    Valid(docs, s.additionalProperties, e.v)

Valid(docs, s, v) ==
    /\ ~Has(s, "never")
    /\ Has(s, "nothing") => v.t = "nothing"
    /\ Has(s, "$ref") => Valid(docs, Resolve(docs, s["$ref"]), v)
    /\ Has(s, "type") => \E j \in DOMAIN s.type : TypeOk(s.type[j], v)
    /\ Has(s, "const") => v.c = s.const
    /\ Has(s, "enum") => v.c \in Rng(s.enum)
    /\ NumberOk(s, v)
    /\ StringOk(s, v)
    /\ ArrayOk(docs, s, v)
    /\ ObjectOk(docs, s, v)
    /\ Has(s, "allOf") => \A j \in DOMAIN s.allOf : Valid(docs, s.allOf[j], v)
    /\ Has(s, "anyOf") => \E j \in DOMAIN s.anyOf : Valid(docs, s.anyOf[j], v)
    /\ Has(s, "oneOf") => Cardinality({ j \in DOMAIN s.oneOf : Valid(docs, s.oneOf[j], v) }) = 1
    /\ Has(s, "not") => ~Valid(docs, s["not"], v)
    /\ Has(s, "if") =>
          IF Valid(docs, s["if"], v)
          THEN Has(s, "then") => Valid(docs, s["then"], v)
          ELSE Has(s, "else") => Valid(docs, s["else"], v)
=============================================================================
