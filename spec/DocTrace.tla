------------------------------ MODULE DocTrace ------------------------------
(* Replays parses of schemas that are spread over documents, and generations  *)
(* from them. A line is                                                       *)
(*   root, edges, fails: the graph (see DocGraph),                            *)
(*   asked: the documents in the order they were asked for (watched: whether  *)
(*   that could be observed; never for those in unseen), must: whether all of the graph has to be (where *)
(*   schemas are merged only what they lead to is),                           *)
(*   docs: name -> schema (see JsonSchema; what refers to a document that can *)
(*   not be had accepts anything), out, cover, wit, parse, reported, crash as *)
(*   in SessionTrace.                                                         *)
EXTENDS JsonSchema, DocGraph, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, pos, asked, bad
vars == <<line, pos, asked, bad>>

Cur == Trace[line]
Root(l) == l.docs[l.root]
Ok(l, s, v) == v.t # "fail" /\ Valid(l.docs, s, v)
Satisfiable(l) == \E w \in Rng(l.wit) : Valid(l.docs, Root(l), w)

Init == line = 1 /\ pos = 0 /\ asked = {} /\ bad = {}

Begin == /\ line <= Len(Trace) /\ pos = 0
         /\ asked' = {Cur.root} /\ pos' = 1
         /\ bad' = IF Cur.crash = "" THEN bad ELSE bad \cup {<<line, 0, "crash">>}
         /\ UNCHANGED line

Ask == /\ line <= Len(Trace) /\ pos \in 1..Len(Cur.asked)
       /\ LET d == Cur.asked[pos] IN
          /\ bad' = IF d \in Wanted(Cur, asked) THEN bad
                    ELSE bad \cup {<<line, pos, IF d \in asked THEN "asked again" ELSE "asked for nothing">>}
          /\ asked' = asked \cup {d}
       /\ pos' = pos + 1 /\ UNCHANGED line

Values(l) == { <<n, "value">> : n \in { m \in DOMAIN l.out : ~Ok(l, Root(l), l.out[m]) } }
Covers(l) == { <<n, "cover">> : n \in { m \in DOMAIN l.cover : ~\E v \in Rng(l.out) : Ok(l, l.cover[m], v) } }
Others(l) ==
    (IF l.parse # "ok" THEN {<<0, "gave up">>} ELSE {}) \cup
    (IF l.must /\ l.watched /\ asked \cup Rng(l.unseen) # Reachable(l) \cup Rng(l.unseen) THEN {<<0, "not asked">>} ELSE {}) \cup
    (IF (l.must \/ \E d \in asked : ~CanRead(l, d)) /\ Broken(l) /\ ~l.reported THEN {<<0, "not reported">>} ELSE {}) \cup
    (IF Satisfiable(l) /\ ~Broken(l) /\ l.reported THEN {<<0, "reported">>} ELSE {})

Close == /\ line <= Len(Trace) /\ pos = Len(Cur.asked) + 1
         /\ bad' = bad \cup { <<line, x[1], x[2]>> : x \in IF Cur.crash # "" THEN {}
                                ELSE IF Cur.strict \/ ~Cur.reported THEN Values(Cur) \cup Covers(Cur) \cup Others(Cur) ELSE Others(Cur) }
         /\ line' = line + 1 /\ pos' = 0 /\ UNCHANGED asked

Next == Begin \/ Ask \/ Close
Spec == Init /\ [][Next]_vars
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
