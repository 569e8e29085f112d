----------------------------- MODULE BudgetTrace -----------------------------
(* Replays what was seen of generations under step limits. The steps made are  *)
(* only known at some points (clock leaves, whose value tells at which step it *)
(* was drawn), so the replay keeps the least number of steps that explains     *)
(* everything seen so far: all rules are monotone in it.                       *)
(*                                                                             *)
(* A line is one case: soft, hard, docs/root (its schema), vary (the root has  *)
(* a free size that is chosen below the soft limit), events: a sequence of          *)
(*   [e, a, b]: "fresh" new options; "start" at step a; "tick" a leaf drawn at step a;              *)
(*   "leaf" another leaf; "choose" an alternative; "open" an array or object with a parts that demands b; "part" its a-th    *)
(*   part, of b demanded ones; "follow" a reference was followed; "cut" an array, object or alternative that was  *)
(*   not started (a = 1: at some time during its object);        
*   "end" after a steps, which the soft limit sees as b steps.                *)
(* vals: values that were complete after `at` steps.                           *)
EXTENDS JsonSchema, Budget, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES line, pos, lo, root, free, bad
vars == <<line, pos, lo, root, free, bad>>
Cur == Trace[line]
Flag(why) == bad' = bad \cup {<<line, pos, why>>}
Check(ok, why) == bad' = IF ok THEN bad ELSE bad \cup {<<line, pos, why>>}
Max2(a, b) == IF a > b THEN a ELSE b

Init == line = 1 /\ pos = 1 /\ lo = 0 /\ root = FALSE /\ free = FALSE /\ bad = {}

Event ==
    /\ line <= Len(Trace) /\ pos <= Len(Cur.events)
    /\ pos' = pos + 1 /\ UNCHANGED line
    /\ LET ev == Cur.events[pos] IN
       CASE ev.e = "fresh" ->   \* new options
              /\ lo' = 0 /\ UNCHANGED <<root, free, bad>>
         [] ev.e = "start" ->
              /\ Check(ev.a >= lo, "steps run backwards")
              /\ lo' = ev.a /\ root' = TRUE /\ UNCHANGED free
         [] ev.e = "tick" ->
              /\ Check(ev.a > lo, "steps are not counted, or it was cut off too early")
              /\ lo' = Max2(ev.a, lo) /\ root' = FALSE /\ UNCHANGED free
         [] ev.e = "leaf" ->     \* a leaf that took a step of its own
              /\ lo' = lo + 1 /\ root' = FALSE /\ UNCHANGED <<free, bad>>
         [] ev.e = "choose" ->   \* one of several alternatives
              /\ Check(~CutOff(lo, Cur.hard), "chose an alternative past the cutoff")
              /\ lo' = lo + 1 /\ root' = FALSE /\ UNCHANGED free
         [] ev.e = "open" ->
              /\ bad' = bad \cup (IF CutOff(lo, Cur.hard) THEN {<<line, pos, "started past the cutoff">>} ELSE {})
                            \cup (IF ev.a < ev.b THEN {<<line, pos, "fewer parts than demanded">>} ELSE {})
                            \cup (IF ev.a > ev.b /\ ev.a \notin Sizes(lo, Cur.soft, ev.b, ev.a) THEN {<<line, pos, "more than the minimum past the limit">>} ELSE {})
              /\ lo' = lo + 1 /\ root' = FALSE
              /\ free' = (free \/ (root /\ ev.a > ev.b))
         [] ev.e = "part" ->
              /\ Check(MayContinue(lo, Cur.hard, ev.b, ev.a), "optional part past the cutoff")
              /\ UNCHANGED <<lo, root, free>>
         [] ev.e = "follow" ->   \* what a reference refers to is only generated before the cutoff
              /\ Check(~CutOff(lo, Cur.hard), "followed a reference past the cutoff")
              /\ UNCHANGED <<lo, root, free>>
         [] ev.e = "cut" ->
              /\ Check(Cur.hard > 0, "cut off without a limit")
              /\ lo' = Max2(IF ev.a = 1 THEN lo ELSE lo + 1, Cur.hard + 1) /\ root' = FALSE /\ UNCHANGED free
         [] ev.e = "end" ->
              /\ Check(ev.a >= lo /\ ev.a = ev.b, "steps at the end")
              /\ lo' = Max2(ev.a, lo) /\ UNCHANGED <<root, free>>
         [] OTHER -> Flag("unknown event") /\ UNCHANGED <<lo, root, free>>

(* Without reaching the cutoff the values satisfy the schema.                  *)
BadValues(l) == { n \in DOMAIN l.vals : ~CutOff(l.vals[n].at, l.hard) /\ ~Valid(l.docs, l.docs[l.root], l.vals[n].v) }

Close == /\ line <= Len(Trace) /\ pos = Len(Cur.events) + 1
         /\ bad' = bad \cup { <<line, n, "value">> : n \in BadValues(Cur) }
                       \cup (IF Cur.crash # "" THEN {<<line, pos, "no end">>} ELSE {})
                       \cup (IF Cur.reported THEN {<<line, pos, "reported">>} ELSE {})
                       \cup (IF Cur.vary /\ ~free THEN {<<line, pos, "size is never free">>} ELSE {})
         /\ line' = line + 1 /\ pos' = 1 /\ lo' = 0 /\ root' = FALSE /\ free' = FALSE

Next == Event \/ Close
Spec == Init /\ [][Next]_vars
Accepted == line = Len(Trace) + 1 => PrintT(<<"REPLAYED", Len(Trace), "BAD", bad>>)
=============================================================================
