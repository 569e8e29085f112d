-------------------------- MODULE HttpPolicyTrace --------------------------
(* Replays the requests that reached the servers during a parse. A line:      *)
(*   extra (the case), requests (sequence of <<site, path...>>), marks (the   *)
(*   documents whose content shows in what was generated), reported, parse,   *)
(*   crash.                                                                   *)
EXTENDS HttpPolicy, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, pos, todo, asked, hop, bad
vars == <<line, pos, todo, asked, hop, bad>>
None == <<>>

Cur == Trace[line]
Start(l) == Work(l.extra.base, l.extra.refs)
All(l) == Closure(l.extra, Start(l), {})
Reach(l) == Start(l) \cup UNION { RefsOf(l.extra, u) : u \in All(l) }
AnyFailed(l) == \/ \E w \in Reach(l) : ~MayRequest(l.extra, Target(w.base, w.ref))
                \/ \E u \in All(l) : Result(l.extra, u) = Failed
Docs(l) == { Result(l.extra, u) : u \in All(l) } \ {Failed}

Init == line = 1 /\ pos = 0 /\ todo = {} /\ asked = {} /\ hop = None /\ bad = {}

Meet == /\ line <= Len(Trace) /\ pos = 0
        /\ todo' = Start(Cur) /\ asked' = {} /\ hop' = None /\ pos' = 1
        /\ bad' = IF Cur.crash = "" THEN bad ELSE bad \cup {<<line, 0, "crash">>}
        /\ UNCHANGED line

(* A request is the next hop of a redirect or the first one for a reference    *)
Request == /\ line <= Len(Trace) /\ pos \in 1..Len(Cur.requests)
           /\ LET u == Cur.requests[pos]
                  c == Cur.extra
                  first == \E w \in todo : Target(w.base, w.ref) = u
                  redirected == hop = u
                  a == Answer(u)
              IN /\ bad' = IF ~MayRequest(c, u) THEN bad \cup {<<line, pos, "forbidden request">>}
                           ELSE IF redirected \/ (first /\ u \notin asked) THEN bad
                           ELSE bad \cup {<<line, pos, IF u \in asked THEN "requested again" ELSE "requested for nothing">>}
                 /\ hop' = IF a.k = "redirect" THEN Target(u, a.to) ELSE None
                 /\ asked' = IF first /\ ~redirected THEN asked \cup {u} ELSE asked
                 /\ todo' = IF a.k = "doc" THEN todo \cup Work(u, a.refs) ELSE todo
           /\ pos' = pos + 1 /\ UNCHANGED line

Problems(l) ==
    (IF asked # All(l) THEN {"not requested"} ELSE {}) \cup
    (IF AnyFailed(l) # (l.reported \/ l.parse = "error") THEN {IF AnyFailed(l) THEN "not reported" ELSE "reported"} ELSE {}) \cup
    (IF Rng(l.marks) \subseteq Docs(l) THEN {} ELSE {"content"}) \cup
    (IF l.parse = "ok" /\ Rng(l.marks) # Docs(l) THEN {"content missing"} ELSE {})

Close == /\ line <= Len(Trace) /\ pos = Len(Cur.requests) + 1
         /\ bad' = bad \cup { <<line, pos, x>> : x \in IF Cur.crash = "" THEN Problems(Cur) ELSE {} }
         /\ line' = line + 1 /\ pos' = 0 /\ UNCHANGED <<todo, asked, hop>>

Next == Meet \/ Request \/ Close
Spec == Init /\ [][Next]_vars
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
