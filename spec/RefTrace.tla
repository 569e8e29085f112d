------------------------------ MODULE RefTrace ------------------------------
(* Replays generations of graphs of references (RefGraphCases).                *)
(* A line: graph (name |-> body), depth, bypass, cut (a cutoff may apply),     *)
(* gens: the values generated one after the other with the same options, left: *)
(* the references still on the stack after each.                               *)
(* A value is [k |-> "null"], [k |-> "arr", c |-> values], or [k |-> "text",   *)
(* w |-> what it says].                                                        *)
EXTENDS RefStack, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, gen, bad
Cur == Trace[line]
Range(s) == { s[n] : n \in DOMAIN s }

RECURSIVE Fits(_, _, _, _)
RECURSIVE FitsChild(_, _, _, _)
FitsChild(l, c, v, stack) ==
    IF c = "leaf" THEN v.k = "null"
    ELSE IF Followed(stack, c, l.depth, l.bypass) THEN (l.cut /\ v.k = "null") \/ Fits(l, l.graph[c], v, Append(stack, c))
    ELSE (l.cut /\ v.k = "null") \/ (v.k = "text" /\ Range(v.w) \cap Refused(stack, c, l.depth, l.bypass) # {})
Fits(l, b, v, stack) ==
    \/ l.cut /\ v.k = "null"
    \/ CASE b.k = "leaf" -> v.k = "null"
         [] b.k = "ref"  -> FitsChild(l, b.c[1], v, stack)
         [] b.k = "any"  -> v.k = "arr" /\ Len(v.c) = 1 /\ \E n \in DOMAIN b.c : FitsChild(l, b.c[n], v.c[1], stack)
         [] b.k = "fixed" -> v.k = "arr" /\ Len(v.c) = 2 /\ \A n \in DOMAIN v.c : FitsChild(l, b.c[1], v.c[n], stack)
         [] OTHER -> v.k = "arr" /\ Len(v.c) = Len(b.c) /\ \A n \in DOMAIN v.c : FitsChild(l, b.c[n], v.c[n], stack)

Init == line = 1 /\ gen = 1 /\ bad = {}
Step == /\ line <= Len(Trace) /\ gen <= Len(Cur.gens)
        /\ bad' = bad \cup (IF Fits(Cur, Cur.graph["#"], Cur.gens[gen], <<>>) THEN {} ELSE {<<line, gen, "value">>})
                      \cup (IF Cur.left[gen] = 0 THEN {} ELSE {<<line, gen, "references are left on the stack">>})
        /\ gen' = gen + 1 /\ UNCHANGED line
Close == /\ line <= Len(Trace) /\ gen = Len(Cur.gens) + 1
         /\ bad' = bad \cup (IF Cur.crash # "" THEN {<<line, gen, "no end">>} ELSE {}) \cup (IF Cur.reported THEN {<<line, gen, "reported">>} ELSE {})
         /\ line' = line + 1 /\ gen' = 1
Next == Step \/ Close
Spec == Init /\ [][Next]_<<line, gen, bad>>
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
