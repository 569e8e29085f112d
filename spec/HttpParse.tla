----------------------------- MODULE HttpParse -----------------------------
(* The parse of HttpPolicy request by request, for every policy of a few hosts *)
(* and every reference to a place of the world: a reference waits to be        *)
(* followed, is followed through redirects, and what its document refers to    *)
(* waits in turn.                                                              *)
EXTENDS HttpPolicy

CONSTANTS Broken_
VARIABLES c, todo, at, base, hops, sent, met, denied
vars == <<c, todo, at, base, hops, sent, met, denied>>
Idle == <<"idle">>

Policies == [enabled : BOOLEAN, insecure : BOOLEAN, allowed : {<<>>, <<[site |-> "a", form |-> "host"]>>, <<[site |-> "s", form |-> "host"]>>, <<[site |-> "a", form |-> "tail"]>>, <<[site |-> "s", form |-> "host"], [site |-> "b", form |-> "host"]>>, <<[site |-> "t", form |-> "host"], [site |-> "s", form |-> "host"]>>}]
Starts == { p \in DOMAIN World : p[1] \in {"a", "s"} }

Init == /\ c \in Policies /\ \E p \in Starts : todo = {p}
        /\ at = Idle /\ base = Idle /\ hops = 0 /\ sent = {} /\ met = {} /\ denied = FALSE
Met(u, refs) == { Target(u, r) : r \in Rng(refs) }
Take(u) == /\ at = Idle /\ u \in todo
           /\ todo' = todo \ {u} /\ met' = met \cup {u}
           /\ IF MayRequest(c, u) THEN at' = u /\ base' = u /\ hops' = 0 /\ UNCHANGED denied ELSE denied' = TRUE /\ UNCHANGED <<at, base, hops>>
           /\ UNCHANGED <<c, sent>>
Permitted(u) == IF Broken_ = "hops" THEN TRUE ELSE MayRequest(c, u)
Send == /\ at # Idle
        /\ sent' = sent \cup {at} /\ hops' = hops + 1
        /\ LET a == Answer(at) IN
           IF a.k = "redirect" /\ Permitted(Target(at, a.to)) /\ (hops + 1 < MaxRequests \/ (Broken_ = "limit" /\ hops < MaxRequests + 2)) THEN at' = Target(at, a.to) /\ UNCHANGED <<todo, denied, base>>
           ELSE IF a.k = "doc" THEN /\ at' = Idle /\ base' = Idle /\ UNCHANGED denied
                                    /\ todo' = todo \cup (Met(base, a.refs) \ met)
           ELSE at' = Idle /\ base' = Idle /\ denied' = TRUE /\ UNCHANGED todo
        /\ UNCHANGED <<c, met>>
Next == Send \/ \E u \in todo : Take(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C12 *)
Disabled == ~c.enabled => sent = {}
OnlySecure == ~c.insecure => \A u \in sent : u[1] \in Secure
OnlyAllowed == c.allowed # <<>> => \A u \in sent : \E j \in DOMAIN c.allowed : c.allowed[j].site = u[1] /\ c.allowed[j].form # "tail"
Limited == hops <= MaxRequests
Done == todo = {} /\ at = Idle
(* and what the replay asks for: all that is permitted is followed              *)
Complete == Done => \A u \in met : MayRequest(c, u) => \A r \in (IF Result(c, u) = Failed THEN {} ELSE Rng(World[Result(c, u)].refs)) : Target(u, r) \in met
Tells == Done /\ ~denied => \A u \in met : Result(c, u) # Failed
Ends == <>Done
=============================================================================
