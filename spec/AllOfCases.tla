----------------------------- MODULE AllOfCases -----------------------------
(* Conjunctions of parts of small worlds, nested and referenced                 *)
EXTENDS Worlds
Some(L) == CASE L = NumLeaves -> Pick(L, {"min", "xmax", "even", "enum", "nconst", "nmax"}) [] L = ObjLeaves -> Pick(L, {"a", "a1", "b0o", "na", "few", "some"}) [] OTHER -> Pick(L, {"str", "list", "enum", "nc", "ns", "ne"})
Inner(L) == IF Thorough THEN Leaves(L) ELSE Some(L)
Pairs(w, L) == { Case(w, AllOf(Dom(w), <<x, y>>), <<>>, {}, 40) : x \in Leaves(L), y \in Leaves(L) }
Triples(w, L) == { Case(w, AllOf(Dom(w), <<x, AllOf(Dom(w), <<y, z>>)>>), <<>>, {}, 40) : x \in Inner(L), y \in Inner(L), z \in Inner(L) }
Sides(w, L) == { Case(w, AllOf(Dom(w), <<Both(x, AllOf(Dom(w), <<y, z>>)), x>>), <<>>, {}, 40) : x \in Inner(L), y \in Inner(L), z \in Inner(L) }
Refs(w, L) == { Case(w, AllOf(Dom(w), <<Ref("x", x), Ref("y", AllOf(Dom(w), <<y, Ref("z", z)>>))>>), << <<"z", z>>, <<"y", AllOf(Dom(w), <<y, Ref("z", z)>>)>>, <<"x", x>> >>, {}, 40) : x \in Inner(L), y \in Inner(L), z \in Inner(L) }
(* Conditionals of which at most one applies, within the parts *)
Conds(L) == CASE L = NumLeaves -> << <<"min", "even">>, <<"xmax", "enum">>, <<"const", "nconst">>, <<"nmax", "three">> >>
              [] L = ObjLeaves -> << <<"a", "b0o">>, <<"na", "some">>, <<"a1", "few">>, <<"b0", "a">> >>
              [] OTHER -> << <<"str", "ca">>, <<"num", "enum">>, <<"list", "nc">>, <<"ca", "enum">> >>
CIf(w, L, i) == ThenOf(Dom(w), L[Conds(L)[i][1]], L[Conds(L)[i][2]])
ApartC(L, i, j) == L[Conds(L)[i][1]].s \cap L[Conds(L)[j][1]].s = {}
Conditional(w, L) == LET D == Dom(w) IN UNION {
       { Case(w, AllOf(D, <<CIf(w, L, t[1]), AllOf(D, <<x, CIf(w, L, t[2])>>)>>), <<>>, {}, 100),
         Case(w, AllOf(D, <<AllOf(D, <<CIf(w, L, t[1])>>), Ref("y", AllOf(D, <<x, CIf(w, L, t[2])>>))>>), << <<"y", AllOf(D, <<x, CIf(w, L, t[2])>>)>> >>, {}, 100),
         Case(w, AllOf(D, <<Ref("x", AllOf(D, <<CIf(w, L, t[1])>>)), Ref("y", AllOf(D, <<CIf(w, L, t[2])>>)), x>>),
              << <<"x", AllOf(D, <<CIf(w, L, t[1])>>)>>, <<"y", AllOf(D, <<CIf(w, L, t[2])>>)>> >>, {}, 100),
         Case(w, Both(AllOf(D, <<AllOf(D, <<CIf(w, L, t[1])>>), x>>), CIf(w, L, t[2])), <<>>, {}, 100) } :
       t \in { t \in (1..4) \X (1..4) : ApartC(L, t[1], t[2]) }, x \in Some(L) }
Of(w, L) == Pairs(w, L) \cup Triples(w, L) \cup Sides(w, L) \cup Refs(w, L) \cup Conditional(w, L)
ASSUME Write(Of(NumW, NumLeaves) \cup Of(LitW, NumLeaves) \cup Of(ObjW, ObjLeaves) \cup Of(MixW, MixLeaves) \cup Of(AlikeW, AlikeLeaves) \cup Of(ArrW, ArrLeaves))
=============================================================================
