---------------------------- MODULE PlaceAnyCases ----------------------------
EXTENDS Places
Rest(p, x, e) == Both(AllOf(D, <<In(p, x)>>), e)
Anys(p, L) == { Case(p.w, Rest(p, x, AnyOf(D, <<In(p, y), In(p, z)>>)), <<>>, {y.s, z.s}, 40) : x \in L, y \in L, z \in L }
OnesOf(p, L) == { Case(p.w, Rest(p, x, OneOf(D, <<In(p, y), In(p, z)>>)), <<>>, {}, 60) : x \in L, y \in L, z \in L }
Refs(p, L) == { Case(p.w, Rest(p, x, AnyOf(D, <<Ref("y", In(p, y)), In(p, Ref("z", z))>>)), << <<"y", In(p, y)>>, <<"z", z>> >>, {y.s, z.s}, 40) : x \in Few, y \in Few, z \in L }
ASSUME WriteAs("place", Of(Anys, Few) \cup Of(OnesOf, Few) \cup Of(Refs, Few) \cup (IF Thorough THEN Of(Refs, Leaves(NumLeaves)) ELSE {}))
=============================================================================
