------------------------------ MODULE DocParse ------------------------------
(* The parse of DocGraph step by step, over every graph of a few documents:    *)
(* documents that were referred to wait in a queue, some of them are being     *)
(* read, and what a document refers to joins the queue when it was read. The   *)
(* order of the queue does not matter for what a parse ends up with.           *)
EXTENDS DocGraph

CONSTANTS Others, Broken_
VARIABLES g, queue, asked, times, had, reported
vars == <<g, queue, asked, times, had, reported>>
Root == "r"
Docs == {Root} \cup Others
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

Init == /\ \E e \in [Docs -> SUBSET Docs], f \in SUBSET Others : g = [root |-> Root, edges |-> [d \in Docs |-> SetSeq(e[d])], fails |-> SetSeq(f)]
        /\ queue = {Root} /\ asked = {} /\ times = [d \in Docs |-> 0] /\ had = {} /\ reported = FALSE

Ask(d) == /\ d \in queue
          /\ queue' = queue \ {d} /\ asked' = asked \cup {d} /\ times' = [times EXCEPT ![d] = IF @ = 2 THEN 2 ELSE @ + 1]
          /\ UNCHANGED <<g, had, reported>>
Read(d) == /\ d \in asked \ had /\ CanRead(g, d)
           /\ had' = had \cup {d}
           /\ queue' = queue \cup (IF Broken_ = "again" THEN Edges(g, d) ELSE IF Broken_ = "flat" /\ d # Root THEN {} ELSE Edges(g, d) \ asked)
           /\ UNCHANGED <<g, asked, times, reported>>
Fail(d) == /\ d \in asked \ had /\ ~CanRead(g, d)
           /\ had' = had \cup {d} /\ reported' = IF Broken_ = "silent" THEN reported ELSE TRUE
           /\ UNCHANGED <<g, queue, asked, times>>
Next == \E d \in Docs : Ask(d) \/ Read(d) \/ Fail(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == queue = {} /\ asked \subseteq had
(* C11 *)
OnlyReferred == asked \subseteq Reachable(g)
Once == \A d \in Docs : times[d] <= 1
AllOfThem == Done => asked = Reachable(g)
TellsFailures == Done => (reported <=> Broken(g))
(* What the replay takes as a step is a step of the machine                     *)
Steps == [][\A d \in asked' \ asked : asked # {} => d \in Wanted(g, asked)]_vars
Ends == <>Done
=============================================================================
