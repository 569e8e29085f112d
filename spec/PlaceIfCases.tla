----------------------------- MODULE PlaceIfCases -----------------------------
EXTENDS Places
Rest(p, x, e) == Both(AllOf(D, <<In(p, x)>>), e)
Ifs(p, L) == { Case(p.w, Rest(p, x, IfOf(D, In(p, c), In(p, y), In(p, z))), <<>>, {}, 100) : x \in Pick(NumLeaves, {"xmax", "nconst"}), c \in L, y \in L, z \in L }
Thens(p, L) == { Case(p.w, Rest(p, x, ThenOf(D, In(p, c), Ref("y", In(p, y)))), << <<"y", In(p, y)>> >>, {}, 100) : x \in Few, c \in Few, y \in L }
Elses(p, L) == { Case(p.w, Rest(p, x, ElseOf(D, In(p, Ref("c", c)), In(p, y))), << <<"c", c>> >>, {}, 100) : x \in Few, c \in Few, y \in L }
ASSUME WriteAs("place", Of(Ifs, Few) \cup Of(Thens, Some) \cup Of(Elses, Some))
=============================================================================
