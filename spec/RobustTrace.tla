---------------------------- MODULE RobustTrace ----------------------------
(* The life of one use of the library, whatever bytes it is given. A line:    *)
(*   events: what happened in order:                                          *)
(*     "refused"   parsing returned an error                                  *)
(*     "parsed"    parsing returned a generator                               *)
(*     "described" the generator was printed                                  *)
(*     "value"     generating returned something that serialises to JSON      *)
(*     "null generator" the generator of a refused schema still generates     *)
(*   anything else ("panic ...", "not serialisable ...") is not a step of it  *)
(*   crash: "" or how the process ended (a stack overflow, no end in time).   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, pos, phase, bad
vars == <<line, pos, phase, bad>>
Cur == Trace[line]

(* The protocol *)
Step(p, e) ==
    CASE p = "start"   /\ e = "refused"   -> "refused"
      [] p = "start"   /\ e = "parsed"    -> "open"
      [] p = "open"    /\ e = "described" -> "open"
      [] p = "open"    /\ e = "value"     -> "used"
      [] p = "used"    /\ e = "value"     -> "used"
      [] p = "refused" /\ e = "value"     -> "refused"
      [] OTHER -> "broken"
Final == {"refused", "used"}

Init == line = 1 /\ pos = 1 /\ phase = "start" /\ bad = {}

Happen == /\ line <= Len(Trace) /\ pos <= Len(Cur.events)
          /\ phase' = Step(phase, Cur.events[pos])
          /\ bad' = IF phase' = "broken" /\ phase # "broken" THEN bad \cup {<<line, pos, Cur.events[pos]>>} ELSE bad
          /\ pos' = pos + 1 /\ UNCHANGED line

Close == /\ line <= Len(Trace) /\ pos = Len(Cur.events) + 1
         /\ bad' = IF Cur.crash # "" THEN bad \cup {<<line, pos, "crash">>}
                   ELSE IF phase \in Final \cup {"broken"} THEN bad ELSE bad \cup {<<line, pos, "no value">>}
         /\ line' = line + 1 /\ pos' = 1 /\ phase' = "start"

Next == Happen \/ Close
Spec == Init /\ [][Next]_vars
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
