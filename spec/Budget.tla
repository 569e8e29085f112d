------------------------------- MODULE Budget -------------------------------
(* The two limits on the steps of a generation. soft: from then on only the   *)
(* minimum is generated; hard: from then on nothing is started any more.       *)
(* A limit of 0 is no limit.                                                  *)
EXTENDS Naturals

Minimised(s, soft) == soft > 0 /\ s > soft
CutOff(s, hard) == hard > 0 /\ s > hard

(* Sizes an array or object that demands at least `demand` parts and allows    *)
(* `most` may be started with when s steps were made.                          *)
Sizes(s, soft, demand, most) == IF Minimised(s, soft) THEN {demand} ELSE demand..most

(* The n-th part of it may be started.                                         *)
MayContinue(s, hard, demand, n) == n <= demand \/ ~CutOff(s, hard)
=============================================================================
