---------------------------- MODULE PlaceAllCases ----------------------------
EXTENDS Places
Pairs(p, L) == { Case(p.w, AllOf(D, <<In(p, x), In(p, y)>>), <<>>, {}, 20) : x \in Leaves(NumLeaves), y \in L }
Triples(p, L) == { Case(p.w, AllOf(D, <<In(p, x), AllOf(D, <<In(p, y), In(p, z)>>)>>), <<>>, {}, 20) : x \in Few, y \in Few, z \in L }
Within(p, L) == { Case(p.w, AllOf(D, <<In(p, AllOf(D, <<x, y>>)), In(p, z)>>), <<>>, {}, 20) : x \in Few, y \in Few, z \in L }
Refs(p, L) == { Case(p.w, AllOf(D, <<Ref("x", In(p, x)), In(p, Ref("y", y))>>), << <<"x", In(p, x)>>, <<"y", y>> >>, {}, 20) : x \in L, y \in L }
ASSUME WriteAs("place", Of(Pairs, Some) \cup Of(Triples, Few) \cup Of(Within, Few) \cup Of(Refs, Some))
=============================================================================
