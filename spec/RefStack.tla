------------------------------ MODULE RefStack ------------------------------
(* References are resolved while generating: the stack holds those whose       *)
(* target is being generated at the moment, outermost first.                   *)
EXTENDS Naturals, Sequences

OnStack(stack, target) == \E n \in DOMAIN stack : stack[n] = target

(* What becomes of a reference: it is followed, or a text says why not.        *)
(* If there is more than one reason any of them may be given.                  *)
Refused(stack, target, depth, bypass) ==
    (IF Len(stack) > depth THEN {"depth"} ELSE {}) \cup (IF OnStack(stack, target) /\ ~bypass THEN {"cyclic"} ELSE {})
Followed(stack, target, depth, bypass) == Refused(stack, target, depth, bypass) = {}
=============================================================================
