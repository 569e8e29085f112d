----------------------------- MODULE AnyOfCases -----------------------------
(* Alternatives made of parts of small worlds, overlapping, nested and          *)
(* referenced. Each alternative that has values of its own is taken.            *)
EXTENDS Worlds
Inner(L) == CASE L = NumLeaves -> Pick(L, {"min", "xmax", "even", "enum", "const", "nmax"} \cup (IF Thorough THEN {"nconst", "odd", "three"} ELSE {}))
              [] L = ObjLeaves -> Pick(L, {"a", "a1", "b0o", "na", "few"} \cup (IF Thorough THEN {"a1o", "some", "b0"} ELSE {}))
              [] OTHER -> Pick(L, {"str", "list", "enum", "nc", "ca"} \cup (IF Thorough THEN {"ns", "nl", "num"} ELSE {}))
Few(L) == CASE L = NumLeaves -> Pick(L, {"min", "even", "enum", "nmax"} \cup (IF Thorough THEN {"const", "nconst"} ELSE {}))
            [] L = ObjLeaves -> Pick(L, {"a", "b0o", "na"} \cup (IF Thorough THEN {"a1"} ELSE {})) [] OTHER -> Pick(L, {"str", "list", "enum"} \cup (IF Thorough THEN {"nc"} ELSE {}))
Own(q) == { q[i].s \ UNION { q[j].s : j \in DOMAIN q \ {i} } : i \in DOMAIN q }
(* how: any or one *)
Of(h, D, q) == IF h = "any" THEN AnyOf(D, q) ELSE OneOf(D, q)
Plain(w, L, h) == { Case(w, Of(h, Dom(w), q), <<>>, Own(q), 400) : q \in UNION { { <<x, y>> : x \in Leaves(L), y \in Leaves(L) }, { <<x>> : x \in Leaves(L) }, { <<x, y, z>> : x \in Inner(L), y \in Inner(L), z \in Inner(L) } } }
Nested(w, L, h, g) == { Case(w, Of(h, Dom(w), <<x, Of(g, Dom(w), <<y, z>>)>>), <<>>, {}, 200) : x \in Inner(L), y \in Inner(L), z \in Inner(L) }
Next2(w, L, h) == { Case(w, Both(x, Of(h, Dom(w), <<y, z>>)), <<>>, {}, 200) : x \in { E("\"title\": \"t\"", Dom(w)) }, y \in Inner(L), z \in Inner(L) }
Conj(w, L, h, g) == { Case(w, AllOf(Dom(w), <<Of(h, Dom(w), <<p, q>>), Of(g, Dom(w), <<x, y>>)>>), <<>>, {}, 200) : p \in Few(L), q \in Few(L), x \in Few(L), y \in Few(L) }
Within(w, L, h) == { Case(w, Of(h, Dom(w), <<AllOf(Dom(w), <<x, y>>), z>>), <<>>, {}, 200) : x \in Inner(L), y \in Inner(L), z \in Inner(L) }
Beside(w, L, h) == { Case(w, Both(AllOf(Dom(w), <<x>>), Of(h, Dom(w), <<y, z>>)), <<>>, {}, 200) : x \in Inner(L), y \in Inner(L), z \in Inner(L) }
Refs(w, L, h) == { Case(w, Of(h, Dom(w), <<Ref("x", x), Ref("y", y)>>), << <<"x", x>>, <<"y", y>> >>, Own(<<x, y>>), 400) : x \in Leaves(L), y \in Leaves(L) }
Hows == {"any", "one"}
World_(w, L) == UNION { Plain(w, L, h) \cup Next2(w, L, h) \cup Within(w, L, h) \cup Beside(w, L, h) \cup Refs(w, L, h) \cup UNION { Nested(w, L, h, g) \cup Conj(w, L, h, g) : g \in Hows } : h \in Hows }
ASSUME Write(World_(NumW, NumLeaves) \cup World_(LitW, NumLeaves) \cup World_(ObjW, ObjLeaves) \cup World_(MixW, MixLeaves) \cup World_(AlikeW, AlikeLeaves) \cup World_(ArrW, ArrLeaves))
=============================================================================
