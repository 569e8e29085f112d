---------------------------- MODULE SessionTrace ----------------------------
(* Checks histories recorded from the real code against the contract of a    *)
(* session: a schema is parsed, possibly reporting problems, and values are   *)
(* generated from it.                                                         *)
(*                                                                            *)
(* A line of the trace is one session:                                        *)
(*   id, docs (name -> schema), parse ("ok" | "error"), reported (BOOL),      *)
(*   wit: values claimed to satisfy the schema, unsat: BOOL (the case was     *)
(*   enumerated by a specification that found no value to satisfy it),        *)
(*   out: the values generated, cover: schemas each of which has to accept at *)
(*   least one of them, contract (if bound): a schema that the values have to *)
(*   satisfy besides (what options and documentation promise), crash: "" or    *)
(*   how the session ended.                                                   *)
EXTENDS JsonSchema, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES line,      \* the session being replayed
          pos,       \* 0: not parsed yet, n: n-1 values generated
          bad        \* events the contract does not allow: <<line, event, why>>

vars == <<line, pos, bad>>

Cur == Trace[line]
Root(l) == l.docs[l.root]

(* Contract -------------------------------------------------------------- *)
Satisfiable(l) == \E w \in Rng(l.wit) : Valid(l.docs, Root(l), w)
Reported(l) == l.reported \/ l.parse = "error"

(* Parsing may only report a schema some value satisfies if it is out of the  *)
(* supported subset, and has to report a schema no value satisfies.           *)
ParseAllowed(l) ==
    /\ l.crash = ""
    /\ Satisfiable(l) => ~Reported(l)
    /\ l.unsat => Reported(l)

(* Values of a schema nothing was reported for satisfy it.                    *)
EmitAllowed(l, v) ==
    \/ Reported(l)
    \/ v.t = "fail" /\ l.mayFail
    \/ v.t # "fail" /\ Valid(l.docs, Root(l), v) /\ (l.bound => Valid(l.docs, l.contract, v))

(* All that the schema offers is on offer.                                    *)
CoverAllowed(l, s) == Reported(l) \/ \E v \in Rng(l.out) : v.t # "fail" /\ Valid(l.docs, s, v)

(* Replay ------------------------------------------------------------------ *)
Init == line = 1 /\ pos = 0 /\ bad = {}

Parse == /\ line <= Len(Trace) /\ pos = 0
         /\ bad' = IF ParseAllowed(Cur) THEN bad ELSE bad \cup {<<line, 0, "parse">>}
         /\ pos' = 1 /\ UNCHANGED line

Emit == /\ line <= Len(Trace) /\ pos \in 1..Len(Cur.out)
        /\ bad' = IF EmitAllowed(Cur, Cur.out[pos]) THEN bad ELSE bad \cup {<<line, pos, "value">>}
        /\ pos' = pos + 1 /\ UNCHANGED line

Close == /\ line <= Len(Trace) /\ pos = Len(Cur.out) + 1
         /\ bad' = bad \cup { <<line, j, "cover">> : j \in { n \in DOMAIN Cur.cover : ~CoverAllowed(Cur, Cur.cover[n]) } }
         /\ line' = line + 1 /\ pos' = 0

Next == Parse \/ Emit \/ Close
Spec == Init /\ [][Next]_vars

(* Printed once every line was replayed.                                       *)
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
