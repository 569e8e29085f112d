--------------------------- MODULE Contradictions ---------------------------
(* Which small groups of keywords no value can satisfy, and the pointer of a   *)
(* place in a schema.                                                          *)
(* A group is a record: kind and the operands of that kind (None: the keyword  *)
(* is not written).                                                            *)
EXTENDS Integers, Sequences, FiniteSets

None == 99
Is(x) == x # None

(* Numbers: type, lo, xlo (exclusive), hi, xhi, m (multipleOf) *)
Above(g, v2) == Is(g.lo) => IF g.xlo THEN v2 > 2 * g.lo ELSE v2 >= 2 * g.lo
Below(g, v2) == Is(g.hi) => IF g.xhi THEN v2 < 2 * g.hi ELSE v2 <= 2 * g.hi
(* v2 is twice the value, so that there are fractions between the integers     *)
Fits(g, v2) == Above(g, v2) /\ Below(g, v2)
    /\ (g.type = "integer" => v2 % 2 = 0)
    /\ (Is(g.m) => v2 % (2 * g.m) = 0)
NumberClash(g) == (Is(g.m) /\ g.m <= 0) \/ ~\E v2 \in -40..40 : Fits(g, v2)

(* Lengths, counts of items and properties: lo, hi *)
RangeClash(lo, hi) == (Is(lo) /\ Is(hi) /\ lo > hi)
LengthClash(g) == RangeClash(g.lo, g.hi) \/ (Is(g.lo) /\ g.lo < 0) \/ (Is(g.hi) /\ g.hi < 0)

(* Arrays: lo, hi, tuple (None or a count), closed, clo, chi (minContains ...) *)
(* contains demands one item unless minContains says something else            *)
AtLeast(g) == IF Is(g.clo) THEN g.clo ELSE IF Is(g.chi) THEN 1 ELSE 0
ArrayClash(g) == RangeClash(g.lo, g.hi) \/ RangeClash(AtLeast(g), g.chi)
    \/ (Is(g.hi) /\ AtLeast(g) > g.hi)
    \/ (g.closed /\ Is(g.lo) /\ g.lo > g.tuple)

(* Objects: lo, hi, required (count), properties (count), closed               *)
ObjectClash(g) == RangeClash(g.lo, g.hi)
    \/ (Is(g.lo) /\ g.lo < 0)
    \/ (Is(g.hi) /\ g.required > g.hi)
    \/ (g.closed /\ g.required > g.properties)
    \/ (g.closed /\ Is(g.lo) /\ g.lo > g.properties)

(* Literals: type, values (kinds of values), as "enum" or "const"              *)
OfType(v, t) == v = t \/ (t = "number" /\ v = "integer")
LiteralClash(g) == ~\E n \in DOMAIN g.values : OfType(g.values[n], g.type)

(* The same literals demanded and negated, or types                            *)
NegationClash(g) == \A n \in DOMAIN g.values : \E j \in DOMAIN g.no : g.no[j] = g.values[n]

Clash(g) == CASE g.kind = "number" -> NumberClash(g)
              [] g.kind = "string" -> LengthClash(g)
              [] g.kind = "array" -> ArrayClash(g)
              [] g.kind = "object" -> ObjectClash(g)
              [] g.kind = "literal" -> LiteralClash(g)
              [] g.kind = "negated" -> NegationClash(g)
              [] OTHER -> g.clash

(* Pointers of places ---------------------------------------------------- *)
Token(p) == CASE p = "property"    -> <<"properties", "a">>
              [] p = "escaped"     -> <<"properties", "b~1c~0d">>
              [] p = "pattern"     -> <<"patternProperties", "^a">>
              [] p = "additional"  -> <<"additionalProperties">>
              [] p = "items"       -> <<"items">>
              [] p = "prefix"      -> <<"prefixItems", "1">>
              [] p = "legacy"      -> <<"items", "1">>
              [] p = "rest"        -> <<"additionalItems">>
              [] p = "unevaluated" -> <<"unevaluatedItems">>
              [] p = "contains"    -> <<"contains">>
              [] p = "defs"        -> <<"$defs", "a">>
              [] p = "definitions" -> <<"definitions", "a">>
              [] p = "any"         -> <<"anyOf", "1">>
              [] p = "one"         -> <<"oneOf", "1">>
              [] p = "all"         -> <<"allOf">>
              [] p = "then"        -> <<"then">>
              [] p = "else"        -> <<"else">>
              [] OTHER -> <<>>
RECURSIVE Pointer(_)
Pointer(ps) == IF ps = <<>> THEN <<>> ELSE Token(Head(ps)) \o Pointer(Tail(ps))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
