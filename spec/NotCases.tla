------------------------------- MODULE NotCases -------------------------------
(* Negations of single keywords over small worlds: several next to one another  *)
(* in allOf and allOf within allOf, twice negated, referenced, in alternatives, *)
(* below conditions, next to what narrows the rest.                             *)
EXTENDS Worlds
Negated(L) == CASE L = NumLeaves -> Pick(L, {"min", "max", "xmin", "xmax", "even", "three", "enum", "const"})
                [] L = ObjLeaves -> Pick(L, {"a", "b", "few", "some"})
                [] L = ArrLeaves -> Pick(L, {"str", "num", "list", "enum", "ca", "cn"})
                [] OTHER -> Pick(L, {"str", "num", "int", "list", "enum", "ca", "cn"})
Sides(L) == CASE L = NumLeaves -> Pick(L, {"min", "xmax", "even", "enum"}) [] L = ObjLeaves -> Pick(L, {"b0o", "a", "some"}) [] OTHER -> Pick(L, {"list", "enum", "str"})
Twice(D, x) == NotOf(D, NotOf(D, x))
One_(w, L) == { Case(w, NotOf(Dom(w), x), <<>>, { {d} : d \in Dom(w) \ x.s }, 400) : x \in Negated(L) }
         \cup { Case(w, Twice(Dom(w), x), <<>>, { {d} : d \in x.s }, 400) : x \in Negated(L) }
         \cup { Case(w, NotOf(Dom(w), Ref("x", x)), << <<"x", x>> >>, { {d} : d \in Dom(w) \ x.s }, 400) : x \in Negated(L) }
         \cup { Case(w, Both(AllOf(Dom(w), <<x>>), NotOf(Dom(w), y)), <<>>, {}, 60) : x \in Leaves(L), y \in Negated(L) }
N_(D, x) == NotOf(D, x)
Several(w, L) == { Case(w, AllOf(Dom(w), <<N_(Dom(w), x), N_(Dom(w), y)>>), <<>>, {}, 60) : x \in Negated(L), y \in Negated(L) }
            \cup { Case(w, Both(AllOf(Dom(w), <<N_(Dom(w), x)>>), N_(Dom(w), y)), <<>>, {}, 60) : x \in Negated(L), y \in Negated(L) }
            \cup { Case(w, AllOf(Dom(w), <<N_(Dom(w), x), AllOf(Dom(w), <<N_(Dom(w), y), N_(Dom(w), z)>>)>>), <<>>, {}, 60) : x \in Negated(L), y \in Negated(L), z \in Negated(L) }
            \cup { Case(w, AllOf(Dom(w), <<N_(Dom(w), x), Ref("r", AllOf(Dom(w), <<N_(Dom(w), y), N_(Dom(w), z)>>))>>), << <<"r", AllOf(Dom(w), <<N_(Dom(w), y), N_(Dom(w), z)>>)>> >>, {}, 60) : x \in Negated(L), y \in Negated(L), z \in Negated(L) }
            \cup { Case(w, AllOf(Dom(w), <<x, N_(Dom(w), y), AllOf(Dom(w), <<N_(Dom(w), z)>>)>>), <<>>, {}, 60) : x \in Sides(L), y \in Negated(L), z \in Negated(L) }
            \cup { Case(w, AllOf(Dom(w), <<Twice(Dom(w), x), N_(Dom(w), y), z>>), <<>>, {}, 60) : x \in Sides(L), y \in Negated(L), z \in Sides(L) }
Elsewhere(w, L) == { Case(w, AnyOf(Dom(w), <<N_(Dom(w), x), N_(Dom(w), y)>>), <<>>, {}, 200) : x \in Negated(L), y \in Negated(L) }
              \cup { Case(w, OneOf(Dom(w), <<N_(Dom(w), x), N_(Dom(w), y)>>), <<>>, {}, 200) : x \in Negated(L), y \in Negated(L) }
              \cup { Case(w, IfOf(Dom(w), x, N_(Dom(w), y), N_(Dom(w), z)), <<>>, {}, 200) : x \in Sides(L), y \in Negated(L), z \in Negated(L) }
              \cup { Case(w, ThenOf(Dom(w), N_(Dom(w), x), N_(Dom(w), y)), <<>>, {}, 200) : x \in Negated(L), y \in Negated(L) }
              \cup { Case(w, Both(N_(Dom(w), x), AnyOf(Dom(w), <<y, z>>)), <<>>, {}, 200) : x \in Negated(L), y \in Sides(L), z \in Sides(L) }
              \cup { Case(w, Both(N_(Dom(w), x), ThenOf(Dom(w), y, z)), <<>>, {}, 200) : x \in Negated(L), y \in Sides(L), z \in Sides(L) }
World_(w, L) == One_(w, L) \cup Several(w, L) \cup Elsewhere(w, L)
ASSUME Write(World_(NumW, NumLeaves) \cup World_(LitW, NumLeaves) \cup World_(ObjW, ObjLeaves) \cup World_(MixW, MixLeaves) \cup World_(AlikeW, AlikeLeaves) \cup World_(ArrW, ArrLeaves))
=============================================================================
