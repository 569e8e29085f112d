----------------------------- MODULE SizeCases -----------------------------
(* Schemas with and without bounds of their own, default size options, and the  *)
(* sizes that are then allowed and offered (Sizes).                             *)
EXTENDS Sizes, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"
Str(n) == ToString(n)
Given(k, n) == IF n = NoneGiven THEN "" ELSE ", \"" \o k \o "\": " \o Str(n)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o Join(Tail(q))
Names == <<"a", "b", "c", "d">>

Arrays == { a \in [smin: {NoneGiven, 1, 2, 4, 12}, smax: {NoneGiven, 0, 1, 3, 5, 12}, tuple: {0, 2}, contains: {0, 1, 3}, closed: BOOLEAN, unique: BOOLEAN,
                   dmin: IF Thorough THEN 0..4 ELSE {0, 1, 3}, dmax: IF Thorough THEN {0, 1, 2, 3, 4, 7} ELSE {0, 2, 4}] :
              /\ a.smin # NoneGiven /\ a.smax # NoneGiven => a.smin <= a.smax
              /\ a.smax # NoneGiven => a.tuple + a.contains <= a.smax
              /\ a.closed => a.tuple > 0 /\ a.contains = 0 /\ (a.smin = NoneGiven \/ a.smin <= a.tuple) /\ ~a.unique
              /\ a.unique => a.tuple = 0 /\ a.contains = 0 }
ArrayText(a) == "{\"type\": \"array\"" \o Given("minItems", a.smin) \o Given("maxItems", a.smax)
    \o (IF a.tuple = 0 THEN "" ELSE ", \"prefixItems\": [{\"type\": \"null\"}, {\"type\": \"null\"}]")
    \o (IF a.contains = 0 THEN "" ELSE ", \"contains\": {\"type\": \"integer\"}, \"minContains\": " \o Str(a.contains))
    \o (IF a.closed THEN ", \"items\": false" ELSE IF a.unique THEN ", \"items\": {\"type\": \"integer\", \"minimum\": 0, \"maximum\": 999999}, \"uniqueItems\": true" ELSE ", \"items\": {\"type\": [\"boolean\", \"integer\"]}") \o "}"
Length(lo, hi) == "{\"type\": \"array\", \"minItems\": " \o Str(lo) \o ", \"maxItems\": " \o Str(hi) \o "}"

Objects == { o \in [smin: {NoneGiven, 1, 2, 12}, smax: {NoneGiven, 0, 1, 3, 12}, props: {0, 1, 3, 4}, required: {0, 1, 3}, others: {"no", "some", "pattern", "any"},
                    dmin: IF Thorough THEN 0..4 ELSE {0, 2}, dmax: IF Thorough THEN {0, 1, 2, 3, 4, 7} ELSE {0, 1, 4}] :
              /\ o.required <= o.props
              /\ o.smin # NoneGiven /\ o.smax # NoneGiven => o.smin <= o.smax
              /\ o.smax # NoneGiven => o.required <= o.smax
              /\ o.others = "no" /\ o.smin # NoneGiven => o.smin <= o.props }
ObjectText(o) == "{\"type\": \"object\"" \o Given("minProperties", o.smin) \o Given("maxProperties", o.smax)
    \o ", \"properties\": {" \o Join([ i \in 1..o.props |-> "\"" \o Names[i] \o "\": {\"type\": \"null\"}" ]) \o "}, \"required\": [" \o Join([ i \in 1..o.required |-> "\"" \o Names[i] \o "\"" ]) \o "]"
    \o (IF o.others = "no" THEN ", \"additionalProperties\": false" ELSE IF o.others = "some" THEN ", \"additionalProperties\": {\"type\": \"boolean\"}"
        ELSE IF o.others = "pattern" THEN ", \"additionalProperties\": false, \"patternProperties\": {\"^p[0-9]{6}$\": {\"type\": \"boolean\"}}" ELSE "") \o "}"
Size(lo, hi) == "{\"type\": \"object\", \"minProperties\": " \o Str(lo) \o ", \"maxProperties\": " \o Str(hi) \o "}"
Plain(o) == [o EXCEPT !.others = IF @ = "pattern" THEN "some" ELSE @]

Case(p, opt, text, lo, hi, what) == [at |-> p, schema |-> text, contract |-> IF what = "array" THEN Length(lo, hi) ELSE Size(lo, hi),
    covers |-> IF what = "array" THEN << Length(lo, lo), Length(hi, hi) >> ELSE << Size(lo, lo), Size(hi, hi) >>, den |-> hi - lo + 2,
    gen |-> opt]
OptA(a) == ("defaultArrayMinItems" :> a.dmin) @@ ("defaultArrayMaxItems" :> a.dmax) @@ ("defaultObjectMinProperties" :> 1) @@ ("defaultObjectMaxProperties" :> 6)
OptO(o) == ("defaultObjectMinProperties" :> o.dmin) @@ ("defaultObjectMaxProperties" :> o.dmax) @@ ("defaultArrayMinItems" :> 1) @@ ("defaultArrayMaxItems" :> 6)
Places == {"property", "additional", "items", "prefix", "any", "one", "all", "else", "definitions"}
Of(p, a) == IF "tuple" \in DOMAIN a THEN Case(p, OptA(a), ArrayText(a), ArrayLow(a), ArrayHigh(a), "array")
            ELSE Case(p, OptO(a), ObjectText(a), ObjectLow(Plain(a)), ObjectHigh(Plain(a)), "object")
NestedA == { a \in Arrays : a.tuple = 0 /\ a.contains = 0 /\ ~a.unique /\ a.smin \in {NoneGiven, 2} /\ a.smax \in {NoneGiven, 3} /\ a.dmin \in {0, 3} /\ a.dmax \in {0, 4} }
NestedO == { o \in Objects : o.props = 3 /\ o.required = 1 /\ o.smin \in {NoneGiven, 2} /\ o.smax \in {NoneGiven, 3} /\ o.dmin \in {0, 2} /\ o.dmax \in {0, 4} /\ o.others \in {"no", "some"} }
S == SetToSeq({ Of("root", x) : x \in Arrays } \cup { Of(p, x) : p \in Places, x \in NestedA }) \o SetToSeq({ Of("root", x) : x \in Objects } \cup { Of(p, x) : p \in Places, x \in NestedO })
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "size-" \o ToString(n), kind |-> "choice", extra |-> S[n]] ])
=============================================================================
