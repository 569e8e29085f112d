------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the tool against the machine of Cli.                       *)
(* A line: c, exit, stdout and file ("none"/"absent", "value", "text", "kept", *)
(* "other"), stderr (something was written to it), value: what was written,    *)
(* with kind: "list" (of integers l), "secret" (the content of the document    *)
(* referred to), "other"; pretty (on several lines), requests.                 *)
(* A line of kind limit: flag, n and what was measured in the value:           *)
(*   depth: arrays in each other (count), steps and cutoff: how many of 200    *)
(*   inner arrays are not empty, or are arrays at all (count); if and oneOf:   *)
(*   how many of 100 values could be found (count), cycles: a cycle was refused *)
EXTENDS Cli, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, bad
Cur == Trace[line]

ValueFits(l) == CASE l.c.schema = "good" -> l.value.kind = "list" /\ Len(l.value.l) \in 2..4 /\ \A n \in DOMAIN l.value.l : l.value.l[n] \in 1..5
                  [] l.c.schema \in {"inRef", "outRef", "httpRef"} -> l.value.kind = "secret"
                  [] OTHER -> TRUE
RunWrong(l) ==
    LET f == Final(l.c) IN
    (IF l.crash # "" THEN {"crash"} ELSE {})
    \cup (IF l.exit = f.exit THEN {} ELSE {"exit code"})
    \cup (IF l.stdout = f.stdout THEN {} ELSE {"standard output"})
    \cup (IF l.file = f.file THEN {} ELSE {"output file"})
    \cup (IF f.stderr => l.stderr THEN {} ELSE {"no message"})
    \cup (IF l.requests > 0 => Requests(l.c) THEN {} ELSE {"uninvited request"})
    \cup (IF f.exit = 0 /\ l.c.mode = "run" /\ l.exit = 0 THEN (IF ValueFits(l) THEN {} ELSE {"value"}) \cup (IF l.pretty = (l.c.format /\ l.value.kind = "list") \/ l.value.kind # "list" THEN {} ELSE {"format"}) ELSE {})

Or(n, default) == IF n = 0 THEN default ELSE n
LimitWrong(l) ==
    IF l.crash # "" \/ l.exit # 0 THEN {"failed"}
    ELSE LET n == l.n IN
    CASE l.flag = "depth" -> IF l.count = Or(n, 10) + 2 THEN {} ELSE {"depth"}
      [] l.flag = "cycles" -> IF l.refused = (n = 0) THEN {} ELSE {"cycles"}
      [] l.flag = "steps" -> IF n = 0 THEN (IF l.count >= 100 THEN {} ELSE {"steps"}) ELSE IF l.count <= n + 1 THEN {} ELSE {"steps"}
      [] l.flag = "cutoff" -> IF n = 0 THEN (IF l.count = 200 THEN {} ELSE {"cutoff"}) ELSE IF l.count >= n - 2 /\ l.count <= n + 1 THEN {} ELSE {"cutoff"}
      (* a candidate is accepted once in 80 times                             *)
      [] OTHER -> IF (n \in 1..2 => l.count <= 15) /\ (n >= 40 => l.count >= 15) /\ (n = 0 => l.count >= 40) THEN {} ELSE {"attempts"}
Wrong(l) == IF l.limit THEN LimitWrong(l) ELSE RunWrong(l)

TInit == line = 1 /\ bad = {} /\ cfg = 0 /\ phase = 0 /\ exit = 0 /\ stdout = 0 /\ stderr = 0 /\ file = 0 /\ requested = 0
TNext == /\ line <= Len(Trace) /\ bad' = bad \cup { <<line, 0, w>> : w \in Wrong(Cur) } /\ line' = line + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<line, bad, vars>>
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
