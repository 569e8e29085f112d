----------------------------- MODULE RetryBudget -----------------------------
(* How many attempts a retry loop has left after s steps.                      *)
EXTENDS Budget, Integers

(* Between the limits they shrink with the steps left; rounding is free.       *)
Allowed(base, soft, hard, s) ==
    IF base <= 1 THEN {1}
    ELSE IF ~Minimised(s, soft) THEN {base}
    ELSE IF CutOff(s, hard) THEN {1}
    ELSE IF hard <= soft THEN 1..base
    ELSE { b \in 1..base : LET d == b * (hard - soft) - base * (hard - s)
                           IN (d < hard - soft /\ d >= soft - hard) \/ (b = 1 /\ base * (hard - s) < 2 * (hard - soft)) }
Least(base, soft, hard, s) == CHOOSE b \in Allowed(base, soft, hard, s) : \A x \in Allowed(base, soft, hard, s) : b <= x
Most(base, soft, hard, s) == CHOOSE b \in Allowed(base, soft, hard, s) : \A x \in Allowed(base, soft, hard, s) : b >= x
=============================================================================
