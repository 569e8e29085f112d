----------------------------- MODULE ShareTrace -----------------------------
(* A history of parses and generations. An event is                            *)
(*   [op |-> "value", key, out]: generating with the options and the random    *)
(*     source named by key returned out, whoever asked for it and whatever      *)
(*     happened before: out is a function of key;                              *)
(*   [op |-> "kept", key, out]: whether the options (generator or parser) named *)
(*     by key are what they were before the call ("same" if so).               *)
(* crash: "" or what went wrong (a panic, a data race the detector reported).  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, pos, known, bad
vars == <<line, pos, known, bad>>
Cur == Trace[line]

Init == line = 1 /\ pos = 1 /\ known = <<>> /\ bad = {}

Value(e) == /\ e.op = "value"
            /\ IF e.key \in DOMAIN known
               THEN /\ bad' = IF known[e.key] = e.out THEN bad ELSE bad \cup {<<line, pos, "depends on history">>}
                    /\ UNCHANGED known
               ELSE known' = (e.key :> e.out) @@ known /\ UNCHANGED bad
Kept(e) == /\ e.op = "kept"
           /\ bad' = IF e.out = "same" THEN bad ELSE bad \cup {<<line, pos, "options changed">>}
           /\ UNCHANGED known
Happen == /\ line <= Len(Trace) /\ pos <= Len(Cur.events)
          /\ (Value(Cur.events[pos]) \/ Kept(Cur.events[pos]))
          /\ pos' = pos + 1 /\ UNCHANGED line
Close == /\ line <= Len(Trace) /\ pos = Len(Cur.events) + 1
         /\ bad' = IF Cur.crash # "" THEN bad \cup {<<line, pos, "crash">>} ELSE bad
         /\ known' = <<>> /\ line' = line + 1 /\ pos' = 1
Next == Happen \/ Close
Spec == Init /\ [][Next]_vars
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
