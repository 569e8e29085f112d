----------------------------- MODULE ReportTrace -----------------------------
(* What parsing reports for a group of keywords somewhere in a schema.         *)
(* A line: group, at (the places on the way to it), second (places next to the *)
(* first at which the group is written again, if any), reported, keys: the     *)
(* pointers errors are reported for, as tokens; noticed: whether HasErrors     *)
(* says so too; crash. The schema may be in a document of its own, or refer to *)
(* another one.                                                                *)
EXTENDS Contradictions, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, bad
Cur == Trace[line]
Range(s) == { s[n] : n \in DOMAIN s }

(* Schemas of alternatives and conditions are merged with what is next to them: *)
(* what does not fit together may also be reported where that is done.          *)
Combining == {"any", "one", "all", "then", "else"}
Firm(ps) == LET c == { n \in DOMAIN ps : ps[n] \in Combining } IN
            IF c = {} THEN ps ELSE SubSeq(ps, 1, (CHOOSE n \in c : \A k \in c : n <= k) - 1)
At(l) == { l.at } \cup (IF l.second = <<>> THEN {} ELSE { l.second })
(* allOf in an alternative becomes part of the alternative.                     *)
Inlined(ps) == SelectSeq(ps, LAMBDA p : p # "all")
InlinedAgain(ps) == LET n == { j \in DOMAIN ps : ps[j] = "all" } IN
                    IF n = {} THEN ps ELSE LET m == CHOOSE j \in n : \A k \in n : j <= k IN SubSeq(ps, 1, m) \o Inlined(SubSeq(ps, m + 1, Len(ps)))
On(ps, k) == \E q \in {ps, Inlined(ps), InlinedAgain(ps)} : IsPrefixOf(Pointer(q), k) \/ IsPrefixOf(k, Pointer(q))
(* Somewhere at the place or below it; nothing elsewhere                       *)
Located(l) == /\ \A p \in At(l) : \E k \in Range(l.keys) : IsPrefixOf(Pointer(Firm(p)), k) /\ On(p, k)
              /\ \A k \in Range(l.keys) : \E p \in At(l) : On(p, k)
Wrong(l) == IF l.crash # "" THEN {"crash"}
            ELSE IF l.noticed # l.reported THEN {"not what HasErrors says"}
            ELSE IF ~Clash(l.group) THEN (IF l.reported THEN {"reported without a contradiction"} ELSE {})
            ELSE IF ~l.reported THEN {"not reported"}
            ELSE IF l.pathless \/ Located(l) THEN {} ELSE {"reported elsewhere"}

Init == line = 1 /\ bad = {}
Next == /\ line <= Len(Trace)
        /\ bad' = bad \cup { <<line, 0, w>> : w \in Wrong(Cur) }
        /\ line' = line + 1
Spec == Init /\ [][Next]_<<line, bad>>
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
