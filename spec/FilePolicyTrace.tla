-------------------------- MODULE FilePolicyTrace --------------------------
(* Replays what the real code did with files. A line of the trace:            *)
(*   extra (the case, see FilePolicyCases), opened (sequence of the files     *)
(*   that were opened, in order), watched (FALSE: opening was not observed),  *)
(*   marks (the files whose content shows in what was generated), reported,   *)
(*   parse, crash.                                                            *)
EXTENDS FilePolicy, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, pos, todo, read, bad
vars == <<line, pos, todo, read, bad>>

Cur == Trace[line]
Start(l) == Work(IF l.extra.mode = "file" THEN RealPath(Front(l.extra.root)) ELSE IF l.extra.mode = "text" THEN l.extra.cwd ELSE Front(l.extra.root), l.extra.refs)
All(l) == Closure(l.extra, Start(l), {})
Reach(l) == Start(l) \cup UNION { Work(Front(p), World[p].refs) : p \in All(l) }
AnyDenied(l) == \E w \in Reach(l) : ~MayRead(l.extra, Target(w.dir, w.ref))

Init == line = 1 /\ pos = 0 /\ todo = {} /\ read = {} /\ bad = {}

Meet == /\ line <= Len(Trace) /\ pos = 0
        /\ todo' = Start(Cur) /\ read' = {} /\ pos' = 1
        /\ bad' = IF Cur.crash = "" THEN bad ELSE bad \cup {<<line, 0, "crash">>}
        /\ UNCHANGED line

(* A file that is opened is where one of the references at hand leads to       *)
Open == /\ line <= Len(Trace) /\ pos \in 1..Len(Cur.opened)
        /\ LET p == Cur.opened[pos]
               ws == { w \in todo : MayRead(Cur.extra, Target(w.dir, w.ref)) /\ Target(w.dir, w.ref) = p }
           IN IF ws = {} THEN /\ bad' = bad \cup {<<line, pos, IF p \in read THEN "opened twice" ELSE "opened">>} /\ UNCHANGED <<todo, read>>
              ELSE /\ todo' = (todo \ ws) \cup Work(Front(p), World[p].refs) /\ read' = read \cup {p} /\ UNCHANGED bad
        /\ pos' = pos + 1 /\ UNCHANGED line

Problems(l) ==
    (IF l.watched /\ read # All(l) THEN {"not read"} ELSE {}) \cup
    (IF AnyDenied(l) # (l.reported \/ l.parse = "error") THEN {IF AnyDenied(l) THEN "not reported" ELSE "reported"} ELSE {}) \cup
    (IF Rng(l.marks) \subseteq All(l) THEN {} ELSE {"content"}) \cup
    (IF l.parse = "ok" /\ Rng(l.marks) # All(l) THEN {"content missing"} ELSE {})

Close == /\ line <= Len(Trace) /\ pos = Len(Cur.opened) + 1
         /\ bad' = bad \cup { <<line, pos, x>> : x \in IF Cur.crash = "" THEN Problems(Cur) ELSE {} }
         /\ line' = line + 1 /\ pos' = 0 /\ UNCHANGED <<todo, read>>

Next == Meet \/ Open \/ Close
Spec == Init /\ [][Next]_vars
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
