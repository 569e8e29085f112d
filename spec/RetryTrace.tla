------------------------------ MODULE RetryTrace ------------------------------
(* What was seen of retry loops.                                               *)
(* what = "budget": points <<s, b>>: after s steps there were b attempts.      *)
(* Otherwise one loop was run: `draws` numbers were drawn, each candidate      *)
(* takes `unit` of them and each attempt `per` candidates; it started after    *)
(* `start` steps (its first candidate takes `first`). The draws made every     *)
(* candidate fail until the phase-th one, and let it succeed from there on;    *)
(* found: it did.                                                              *)
EXTENDS RetryBudget, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, bad
Cur == Trace[line]

BudgetBad(l) ==
    { <<line, n, "attempts after so many steps">> : n \in { m \in DOMAIN l.points : l.points[m][2] \notin Allowed(l.base, l.soft, l.hard, l.points[m][1]) } }
    \cup { <<line, n, "attempts grow">> : n \in { m \in DOMAIN l.points : m > 1 /\ l.points[m][2] > l.points[m - 1][2] } }

Scaled(l, s) == IF l.what = "unique" THEN l.base..l.base ELSE Allowed(l.base, l.soft, l.hard, s)
Lo(l) == CHOOSE b \in Scaled(l, l.start + l.first + 2) : \A x \in Scaled(l, l.start + l.first + 2) : b <= x
Hi(l) == CHOOSE b \in Scaled(l, l.start) : \A x \in Scaled(l, l.start) : b >= x
(* the cutoff does not end it first                                            *)
Room(l) == l.hard = 0 \/ l.start + (l.per * Hi(l) + 2) * (l.first + 3) <= l.hard
MustFind(l) == /\ Room(l) /\ l.phase >= 0
               /\ IF l.what = "oneOf" THEN l.phase = 0 \/ (Lo(l) >= 60 /\ 2 * l.phase <= Lo(l) * l.unit)
                  ELSE l.phase <= (Lo(l) - 1) * l.per * l.unit
LoopBad(l) ==
    (IF 8 * l.draws > 9 * l.unit * (l.per * Hi(l) + 1) + 16 THEN {<<line, 1, "more attempts than there are">>} ELSE {})
    \cup (IF MustFind(l) /\ ~l.found THEN {<<line, 2, "not found">>} ELSE {})
    \cup (IF l.phase < 0 /\ Room(l) /\ l.found THEN {<<line, 3, "found what there is not">>} ELSE {})

Init == line = 1 /\ bad = {}
Next == /\ line <= Len(Trace) /\ line' = line + 1
        /\ bad' = bad \cup (IF Cur.crash # "" THEN {<<line, 0, "crash">>}
                            ELSE IF Cur.reported THEN {<<line, 0, "reported">>}
                            ELSE IF Cur.what = "budget" THEN BudgetBad(Cur) ELSE LoopBad(Cur))
Spec == Init /\ [][Next]_<<line, bad>>
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
