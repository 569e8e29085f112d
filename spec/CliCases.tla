------------------------------ MODULE CliCases ------------------------------
EXTENDS Cli, TLC, Json, IOUtils, SequencesExt, FiniteSets

Deep == IOEnv.TIER = "thorough"
Base == [mode |-> "run", input |-> "file", schema |-> "good", out |-> "", format |-> FALSE, hosts |-> <<>>, insecure |-> FALSE, outside |-> FALSE, paths |-> <<>>]
Plain == { [Base EXCEPT !.input = i, !.schema = s, !.out = o, !.format = f] :
             i \in Inputs, s \in {"good", "malformed", "refused", "nested"}, o \in Outs, f \in BOOLEAN }
Fetch == { [Base EXCEPT !.input = i, !.schema = s, !.hosts = h, !.insecure = n, !.outside = o, !.paths = p] :
             i \in {"file", "stdin"}, s \in {"inRef", "outRef", "httpRef"}, h \in Hosts, n \in BOOLEAN, o \in BOOLEAN, p \in Paths }
Other == { [Base EXCEPT !.mode = m, !.input = i, !.schema = s] : m \in Modes, i \in Inputs, s \in {"good", "malformed", "httpRef"} }
       \cup { [Base EXCEPT !.input = i, !.out = o, !.schema = s, !.paths = <<"in", "out">>, !.outside = TRUE] : i \in {"file", "stdin"}, o \in Outs, s \in {"inRef", "outRef"} }
(* Longer lists: the place of what is needed in them                           *)
At(n, len, x, fill) == [ j \in 1..len |-> IF j = n THEN x ELSE fill ]
Lists(x, fill) == { At(n, len, x, fill) : n \in 1..5, len \in 3..5 }
Long == { [Base EXCEPT !.schema = s, !.outside = TRUE, !.paths = l] : s \in {"inRef", "outRef"}, l \in Lists("in", "out") \cup Lists("out", "other") \cup Lists("in", "other") }
   \cup { [Base EXCEPT !.schema = "httpRef", !.insecure = TRUE, !.hosts = l] : l \in Lists("host", "other") }
S == SetToSeq(Plain \cup Fetch \cup Other \cup Long)

(* Limits: the number given with a flag (0: the flag is not given)             *)
Limits == SetToSeq({ [flag |-> f, n |-> n] : f \in {"depth", "steps", "cutoff", "if", "oneOf"}, n \in {0, 1, 2, 3, 5, 8, 13, 40} \cup (IF Deep THEN 1..40 ELSE {}) } \cup { [flag |-> "cycles", n |-> n] : n \in {0, 1} })
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "cli-" \o ToString(n), kind |-> "cli", extra |-> S[n]] ]
    \o [ n \in DOMAIN Limits |-> [id |-> "limit-" \o ToString(n), kind |-> "clilimit", extra |-> Limits[n]] ])
CInit == cfg = Base /\ phase = "done" /\ exit = 0 /\ stdout = "" /\ stderr = FALSE /\ file = "" /\ requested = FALSE
CNext == UNCHANGED vars
=============================================================================
