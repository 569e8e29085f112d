-------------------------- MODULE HttpPolicyCases --------------------------
(* Policies x references, with the machine checked on each of them.           *)
EXTENDS HttpPolicy, Json, IOUtils, SequencesExt

Thorough == IOEnv.TIER = "thorough"

Host(x) == [site |-> x, form |-> "host"]
AsUrl(x) == [site |-> x, form |-> "url"]
Tail_(x) == [site |-> x, form |-> "tail"]     \* 0.0.1:1234
Longer(x) == [site |-> x, form |-> "longer"] \* 127.0.0.1:12340
Wider(x) == [site |-> x, form |-> "wider"]   \* x127.0.0.1:1234
AllowedLists == { <<Tail_("s")>>, <<Longer("s"), Wider("s")>>, <<Tail_("a"), Host("s")>>, <<Wider("b"), Longer("a"), Tail_("t")>>, <<>>, <<Host("a")>>, <<Host("s")>>, <<AsUrl("s")>>, <<Host("a"), Host("b")>>, <<Host("s"), Host("t")>>, <<Host("a"), AsUrl("s")>>, <<AsUrl("t")>>, <<Host("a"), Host("b"), Host("s"), Host("t")>> }
Policies == { [enabled |-> TRUE, insecure |-> i, allowed |-> a] : i \in BOOLEAN, a \in AllowedLists } \cup { [enabled |-> FALSE, insecure |-> TRUE, allowed |-> a] : a \in {<<>>, <<Host("a"), Host("s")>>} }

Paths == { Tail(u) : u \in DOMAIN World } \cup { <<"missing.json">> }
Singles == { At(x, p) : x \in Sites, p \in Paths }
Real(r) == (<<r.site>> \o r.path) \in DOMAIN World \/ r.path = <<"missing.json">>
Combos == { <<At("a", <<"leaf.json">>), At("s", <<"leaf.json">>)>>, <<At("s", <<"ref-t">>), At("t", <<"ref-s">>), At("t", <<"leaf.json">>)>>,
            <<At("s", <<"redirect-t">>), At("t", <<"d", "leaf.json">>)>>, <<At("a", <<"missing.json">>), At("a", <<"leaf.json">>), At("a", <<"rel.json">>)>>,
            <<At("s", <<"broken.json">>), At("s", <<"diamond.json">>)>>, <<At("b", <<"redirect-s">>), At("s", <<"redirect-b">>), At("s", <<"leaf.json">>)>>,
            <<At("s", <<"leaf.json">>), At("s", <<"d", "leaf.json">>), At("s", <<"leaf.json">>)>> }
FromWeb == { <<Rel(<<"leaf.json">>)>>, <<Rel(<<"d", "up.json">>)>>, <<Top(<<"d", "top.json">>)>>, <<Net("t", <<"leaf.json">>)>>, <<Net("b", <<"leaf.json">>)>>, <<Rel(<<"redirect-t">>)>>, <<Rel(<<"ref-a">>), Rel(<<"missing.json">>)>>, <<At("t", <<"rel.json">>)>> }

Roots(refs) == [base |-> <<>>, refs |-> refs]
Inputs == { [base |-> <<>>, refs |-> <<r>>, via |-> v] : r \in { x \in Singles : Real(x) }, v \in {"plain", "allOf"} }
     \cup { [base |-> <<>>, refs |-> q, via |-> v] : q \in Combos, v \in {"plain", "allOf"} }
     \cup { [base |-> b, refs |-> q, via |-> "plain"] : b \in { <<"s", "d", "root.json">>, <<"a", "root.json">> }, q \in FromWeb }
SameSchemeNet(i) == \A r \in Rng(i.refs) : r.form = "net" => SameScheme(i.base[1], r.site)

AllCases == { p @@ i : p \in Policies, i \in { x \in Inputs : SameSchemeNet(x) } }

-----------------------------------------------------------------------------
VARIABLES c, todo, asked, hop, hops, log, failed
vars == <<c, todo, asked, hop, hops, log, failed>>
None == <<>>

Init == c \in AllCases /\ todo = Work(c.base, c.refs) /\ asked = {} /\ hop = None /\ hops = 0 /\ log = {} /\ failed = FALSE

Deny(w) == /\ hop = None /\ ~MayRequest(c, Target(w.base, w.ref))
           /\ failed' = TRUE /\ todo' = todo \ {w} /\ UNCHANGED <<c, asked, hop, hops, log>>
Known(w) == /\ hop = None /\ Target(w.base, w.ref) \in asked
            /\ todo' = todo \ {w} /\ UNCHANGED <<c, asked, hop, hops, log, failed>>
(* The first request for a document                                            *)
Ask(w) == LET u == Target(w.base, w.ref) IN
          /\ hop = None /\ MayRequest(c, u) /\ u \notin asked
          /\ asked' = asked \cup {u} /\ todo' = todo \ {w} /\ hop' = u /\ hops' = 0
          /\ UNCHANGED <<c, log, failed>>
(* A request in flight: the answer is a document, a failure or a redirect      *)
Reply == /\ hop # None
         /\ IF ~MayRequest(c, hop) \/ hops = MaxRequests THEN failed' = TRUE /\ hop' = None /\ hops' = 0 /\ UNCHANGED <<todo, log>>
            ELSE /\ log' = log \cup {hop}
                 /\ IF Answer(hop).k = "redirect" THEN hop' = Target(hop, Answer(hop).to) /\ hops' = hops + 1 /\ UNCHANGED <<todo, failed>>
                    ELSE /\ hop' = None /\ hops' = 0
                         /\ IF Answer(hop).k = "doc" THEN todo' = todo \cup Work(hop, Answer(hop).refs) /\ UNCHANGED failed
                            ELSE failed' = TRUE /\ UNCHANGED todo
         /\ UNCHANGED <<c, asked>>
Next == Reply \/ \E w \in todo : Deny(w) \/ Known(w) \/ Ask(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Nothing that reaches a server breaks the policy                             *)
Polite == \A u \in log :
    /\ c.enabled
    /\ u[1] \in {"a", "b"} => c.insecure
    /\ Len(c.allowed) > 0 => u[1] \in { x.site : x \in { y \in Rng(c.allowed) : y.form \in {"host", "url"} } }
Done == todo = {} /\ hop = None
Complete == Done => asked = Closure(c, Work(c.base, c.refs), {})
Ends == <>Done

-----------------------------------------------------------------------------
Cases == LET cs == SetToSeq(AllCases) IN
         [ j \in 1..Len(cs) |-> [id |-> "http-policy-" \o ToString(j), kind |-> "http", extra |-> cs[j]] ]
Tree == LET ps == SetToSeq(DOMAIN World) IN [ j \in 1..Len(ps) |-> [path |-> ps[j], node |-> World[ps[j]]] ]
ASSUME ndJsonSerialize(IOEnv.OUT, <<[id |-> "world", kind |-> "world", extra |-> [nodes |-> Tree]]>> \o Cases)
=============================================================================
