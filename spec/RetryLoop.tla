------------------------------ MODULE RetryLoop ------------------------------
(* A retry loop: a candidate is tested, and as long as it is rejected and      *)
(* attempts are left another one is generated. When the loop starts it takes   *)
(* its attempts from what is left of the steps; a run of loops, one after the  *)
(* other, never gets more attempts as it goes on.                              *)
EXTENDS RetryBudget, Sequences

CONSTANTS Bases, Softs, Hards, Steps
VARIABLES base, soft, hard, step, steps, attempts, left, given, made
vars == <<base, soft, hard, step, steps, attempts, left, given, made>>

Init == /\ base \in Bases /\ soft \in Softs /\ hard \in Hards /\ step \in Steps
        /\ steps = 0 /\ attempts = 0 /\ left = 0 /\ given = <<>> /\ made = 0

Begin == /\ left = 0 /\ Len(given) < 4
         /\ \E b \in Allowed(base, soft, hard, steps + step) : (IF given = <<>> THEN TRUE ELSE b <= given[Len(given)]) /\ given' = Append(given, b) /\ left' = b
         /\ steps' = steps + step /\ made' = 1
         /\ UNCHANGED <<base, soft, hard, step, attempts>>
Reject == /\ left > 0 /\ left' = left - 1 /\ made' = made + 1 /\ steps' = steps + step + 1
          /\ UNCHANGED <<base, soft, hard, step, given, attempts>>
Accept == /\ left > 0 /\ left' = 0
          /\ UNCHANGED <<base, soft, hard, step, given, attempts, made, steps>>
Next == Begin \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars

(* C17 *)
Positive == \A n \in DOMAIN given : given[n] \in 1..(IF base < 1 THEN 1 ELSE base)
Shrinking == \A n \in DOMAIN given : n > 1 => given[n] <= given[n - 1]
Bounded == given # <<>> => made <= given[Len(given)] + 1
(* there always is a number of attempts to give, whatever was given before     *)
Possible == (left = 0 /\ Len(given) < 4) => ENABLED Begin
=============================================================================
