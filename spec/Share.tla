-------------------------------- MODULE Share --------------------------------
(* Several processes that generate from one generator with one options object. *)
(* A call works on a copy of the options (Copies) and on nothing else that     *)
(* survives it; what it returns depends on the options it was given and on its  *)
(* own random source only, however the steps of other calls interleave.        *)
(* Without the copy (Copies = FALSE) the properties are refuted.               *)
EXTENDS Naturals, Sequences
CONSTANTS Procs, Calls, Steps, Limit, Copies

VARIABLES options,  \* steps recorded in the options of the caller
          pc, own,  \* per process: where it is, steps recorded in its copy
          left,     \* per process: calls it has still to make
          value     \* per process: the values returned so far
vars == <<options, pc, own, left, value>>

Init == /\ options = 0 /\ pc = [p \in Procs |-> 0] /\ own = [p \in Procs |-> 0]
        /\ left = [p \in Procs |-> Calls] /\ value = [p \in Procs |-> <<>>]
Begin(p) == /\ pc[p] = 0 /\ left[p] > 0
            /\ own' = [own EXCEPT ![p] = options]
            /\ pc' = [pc EXCEPT ![p] = 1] /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ UNCHANGED <<options, value>>
Step(p) == /\ pc[p] \in 1..Steps
           /\ IF Copies THEN own' = [own EXCEPT ![p] = @ + 1] /\ UNCHANGED options
                        ELSE options' = options + 1 /\ UNCHANGED own
           /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED <<left, value>>
Return(p) == /\ pc[p] = Steps + 1
             /\ value' = [value EXCEPT ![p] = Append(@, IF (IF Copies THEN own[p] ELSE options) > Limit THEN "minimal" ELSE "full")]
             /\ pc' = [pc EXCEPT ![p] = 0] /\ UNCHANGED <<options, own, left>>
Next == \E p \in Procs : Begin(p) \/ Step(p) \/ Return(p)
Spec == Init /\ [][Next]_vars

Unchanged == options = 0
(* What a single call on its own returns                                       *)
Alone == IF Steps > Limit THEN "minimal" ELSE "full"
Independent == \A p \in Procs : \A n \in DOMAIN value[p] : value[p][n] = Alone
=============================================================================
