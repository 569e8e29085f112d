------------------------------- MODULE Places -------------------------------
(* The world of small numbers, held by an array or object: schemas of the same *)
(* part in several branches mean that the part satisfies all of them.          *)
EXTENDS Worlds

Small == "{\"type\": \"integer\", \"minimum\": 0, \"maximum\": 7}"
Null == "{\"type\": \"null\"}"
Held(pre, post) == [ i \in 1..8 |-> pre \o Str(i - 1) \o post ]
(* pre, post: the keyword around the schema of the part                         *)
Place(base, vpre, vpost, pre, post) == [ w |-> World(base \o ", " \o pre \o Small \o post, Held(vpre, vpost)), pre |-> pre, post |-> post ]
PlacesOf ==
    [ property |-> Place("\"type\": \"object\", \"required\": [\"a\"], \"maxProperties\": 1", "{\"a\": ", "}", "\"properties\": {\"a\": ", "}"),
      deeper |-> Place("\"type\": \"object\", \"required\": [\"o\"], \"maxProperties\": 1", "{\"o\": {\"a\": ", "}}",
                       "\"properties\": {\"o\": {\"type\": \"object\", \"required\": [\"a\"], \"additionalProperties\": false, \"properties\": {\"a\": ", "}}}"),
      pattern |-> Place("\"type\": \"object\", \"required\": [\"a\"], \"maxProperties\": 1", "{\"a\": ", "}", "\"patternProperties\": {\"^a$\": ", "}"),
      unnamed |-> Place("\"type\": \"object\", \"minProperties\": 1, \"maxProperties\": 1, \"additionalProperties\": false", "{\"b\": ", "}", "\"patternProperties\": {\"^b$\": ", "}"),
      additional |-> Place("\"type\": \"object\", \"required\": [\"a\"], \"maxProperties\": 1", "{\"a\": ", "}", "\"additionalProperties\": ", ""),
      items |-> Place("\"type\": \"array\", \"minItems\": 1, \"maxItems\": 1", "[", "]", "\"items\": ", ""),
      nested |-> Place("\"type\": \"array\", \"minItems\": 1, \"maxItems\": 1", "[[null, ", "]]", "\"items\": {\"type\": \"array\", \"minItems\": 2, \"maxItems\": 2, \"prefixItems\": [" \o Null \o ", ", "]}"),
      first |-> Place("\"type\": \"array\", \"minItems\": 1, \"maxItems\": 1", "[", "]", "\"prefixItems\": [", "]"),
      second |-> Place("\"type\": \"array\", \"minItems\": 2, \"maxItems\": 2", "[null, ", "]", "\"prefixItems\": [" \o Null \o ", ", "]"),
      contains |-> Place("\"type\": \"array\", \"minItems\": 1, \"maxItems\": 1, \"items\": " \o Small, "[", "]", "\"contains\": ", "") ]
In(p, e) == E(p.pre \o J(e) \o p.post, e.s)
Few == Pick(NumLeaves, {"min", "xmax", "even", "enum", "nconst"})
Some == IF Thorough THEN Leaves(NumLeaves) ELSE Few
D == 1..8
Of(Cases(_, _), L) == UNION { Cases(PlacesOf[n], L) : n \in DOMAIN PlacesOf }
=============================================================================
