------------------------------- MODULE IfCases -------------------------------
(* Conditionals made of parts of small worlds: on their own, within allOf and   *)
(* allOf within allOf, below references, within one another, in alternatives.   *)
(* Both outcomes of a condition come about. Several conditionals next to one    *)
(* another may depend on each other: what follows from one of them may change   *)
(* whether the other applies.                                                   *)
EXTENDS Worlds
Inner(L) == CASE L = NumLeaves -> Pick(L, {"min", "xmax", "even", "enum", "const", "nmax"} \cup (IF Thorough THEN {"nconst", "odd", "three"} ELSE {}))
              [] L = ObjLeaves -> Pick(L, {"a", "a1", "b0o", "na", "few"} \cup (IF Thorough THEN {"a1o", "some", "b0"} ELSE {}))
              [] OTHER -> Pick(L, {"str", "list", "enum", "nc", "ca"} \cup (IF Thorough THEN {"ns", "nl", "num"} ELSE {}))
Few(L) == CASE L = NumLeaves -> Pick(L, {"min", "even", "enum", "const"} \cup (IF Thorough THEN {"nmax", "nconst"} ELSE {}))
            [] L = ObjLeaves -> Pick(L, {"a", "b0o", "na", "a1"}) [] OTHER -> Pick(L, {"str", "list", "enum"} \cup (IF Thorough THEN {"nc"} ELSE {}))
Both2(D, c, t, f) == {c.s \cap t.s, f.s \ c.s}
Free(D) == E("\"title\": \"t\"", D)
Plain(w, L) == { Case(w, IfOf(Dom(w), c, t, f), <<>>, Both2(Dom(w), c, t, f), 400) : c \in Leaves(L), t \in Inner(L), f \in Inner(L) }
          \cup { Case(w, ThenOf(Dom(w), c, t), <<>>, Both2(Dom(w), c, t, Free(Dom(w))), 400) : c \in Leaves(L), t \in Leaves(L) }
          \cup { Case(w, ElseOf(Dom(w), c, f), <<>>, Both2(Dom(w), c, Free(Dom(w)), f), 400) : c \in Leaves(L), f \in Leaves(L) }
InAll(w, L) == { Case(w, AllOf(Dom(w), <<x, IfOf(Dom(w), c, t, f)>>), <<>>, {}, 200) : x \in Few(L), c \in Few(L), t \in Few(L), f \in Few(L) }
          \cup { Case(w, AllOf(Dom(w), <<x, AllOf(Dom(w), <<IfOf(Dom(w), c, t, f)>>)>>), <<>>, {}, 200) : x \in Few(L), c \in Few(L), t \in Few(L), f \in Few(L) }
          \cup { Case(w, Both(AllOf(Dom(w), <<x>>), ThenOf(Dom(w), c, t)), <<>>, {}, 200) : x \in Inner(L), c \in Inner(L), t \in Inner(L) }
Refs(w, L) == { Case(w, IfOf(Dom(w), Ref("c", c), Ref("t", t), Ref("f", f)), << <<"c", c>>, <<"t", t>>, <<"f", f>> >>, Both2(Dom(w), c, t, f), 400) : c \in Inner(L), t \in Inner(L), f \in Inner(L) }
          \cup { Case(w, AllOf(Dom(w), <<x, Ref("y", ThenOf(Dom(w), Ref("c", c), t))>>), << <<"y", ThenOf(Dom(w), Ref("c", c), t)>>, <<"c", c>> >>, {}, 200) : x \in Few(L), c \in Few(L), t \in Few(L) }
Apart(c, d) == c.s \cap d.s = {}
Two(w, L) == UNION { { Case(w, AllOf(Dom(w), <<ThenOf(Dom(w), c, t), ThenOf(Dom(w), d, u)>>), <<>>, {}, 200),
                       Case(w, AllOf(Dom(w), <<ThenOf(Dom(w), c, t), AllOf(Dom(w), <<ThenOf(Dom(w), d, u)>>)>>), <<>>, {}, 200),
                       Case(w, AllOf(Dom(w), <<Ref("y", AllOf(Dom(w), <<ThenOf(Dom(w), d, u)>>)), ThenOf(Dom(w), c, t)>>), << <<"y", AllOf(Dom(w), <<ThenOf(Dom(w), d, u)>>)>> >>, {}, 200) } :
                     <<c, t, d, u>> \in { q \in Inner(L) \X Few(L) \X Inner(L) \X Few(L) : Apart(q[1], q[3]) } }
Overlap(w, L) == UNION { { Case(w, AllOf(Dom(w), <<ThenOf(Dom(w), c, t), ThenOf(Dom(w), d, u)>>), <<>>, {}, 60),
                           Case(w, Both(AllOf(Dom(w), <<ElseOf(Dom(w), c, t), IfOf(Dom(w), d, t, u)>>), ThenOf(Dom(w), c, u)), <<>>, {}, 60) } :
                         <<c, t, d, u>> \in { q \in Few(L) \X Few(L) \X Few(L) \X Few(L) : q[1] # q[3] } }
Within(w, L) == { Case(w, ThenOf(Dom(w), c, ThenOf(Dom(w), d, u)), <<>>, {}, 200) : c \in Inner(L), d \in Inner(L), u \in Inner(L) }
          \cup { Case(w, AnyOf(Dom(w), <<ThenOf(Dom(w), c, t), x>>), <<>>, {}, 200) : c \in Few(L), t \in Few(L), x \in Few(L) }
          \cup { Case(w, ThenOf(Dom(w), c, AnyOf(Dom(w), <<t, x>>)), <<>>, {}, 200) : c \in Few(L), t \in Few(L), x \in Few(L) }
          \cup { Case(w, ThenOf(Dom(w), AnyOf(Dom(w), <<c, x>>), t), <<>>, {}, 200) : c \in Few(L), t \in Few(L), x \in Few(L) }
World_(w, L) == Plain(w, L) \cup InAll(w, L) \cup Refs(w, L) \cup Two(w, L) \cup Overlap(w, L) \cup Within(w, L)
ASSUME Write(World_(NumW, NumLeaves) \cup World_(LitW, NumLeaves) \cup World_(ObjW, ObjLeaves) \cup World_(MixW, MixLeaves) \cup World_(AlikeW, AlikeLeaves) \cup World_(ArrW, ArrLeaves))
=============================================================================
