------------------------------ MODULE Generate ------------------------------
(* The generation of a value, step by step: what is in progress (frames), the  *)
(* references being resolved and the steps made so far, for every small graph  *)
(* of definitions and every combination of limits. Replays of the code         *)
(* (BudgetTrace, RefTrace) use the same operators.                             *)
(*                                                                             *)
(* Broken disables one rule at a time, to show that the properties need it.    *)
EXTENDS Budget, RefStack, FiniteSets, TLC

CONSTANTS Names, MaxSize, Softs, Hards, Depths, Broken

Children == Names \cup {"leaf"}
Bodies == [k : {"leaf"}] \cup [k : {"ref"}, c : Names]
          \cup { [k |-> "arr", c |-> c, least |-> p[1], most |-> p[2]] : c \in Children, p \in { q \in (0..MaxSize) \X (0..MaxSize) : q[1] <= q[2] /\ q[2] > 0 } }

VARIABLES graph, soft, hard, depth, bypass,
          steps, frames, refs, todo
limits == <<graph, soft, hard, depth, bypass>>
vars == <<limits, steps, frames, refs, todo>>

Root == CHOOSE n \in Names : TRUE
Init == /\ graph \in [Names -> Bodies]
        /\ soft \in Softs /\ hard \in Hards /\ depth \in Depths /\ bypass \in BOOLEAN
        /\ steps = 0 /\ frames = <<>> /\ refs = <<>>
        /\ todo = graph[Root]

Nothing == [k |-> "none"]
Child(c) == IF c = "leaf" THEN [k |-> "leaf"] ELSE [k |-> "ref", c |-> c]
Cut(s) == Broken # "cutoff" /\ CutOff(s, hard)
Top == frames[Len(frames)]
Up == SubSeq(frames, 1, Len(frames) - 1)

Leaf == /\ todo.k = "leaf"
        /\ steps' = steps + 1 /\ todo' = Nothing /\ UNCHANGED <<frames, refs>>

Reference ==
    /\ todo.k = "ref" /\ steps' = steps + 1
    /\ IF Cut(steps + 1) \/ (Broken # "stack" /\ ~Followed(refs, todo.c, IF Broken = "depth" THEN 1000 ELSE depth, bypass))
       THEN todo' = Nothing /\ UNCHANGED <<frames, refs>>
       ELSE /\ refs' = Append(refs, todo.c)
            /\ frames' = Append(frames, [k |-> "ref", c |-> todo.c])
            /\ todo' = graph[todo.c]

Array ==
    /\ todo.k = "arr" /\ steps' = steps + 1 /\ UNCHANGED refs
    /\ IF Cut(steps + 1)
       THEN todo' = Nothing /\ UNCHANGED frames
       ELSE \E n \in (IF Broken = "minimise" THEN todo.least..todo.most ELSE Sizes(steps + 1, soft, todo.least, todo.most)) :
            /\ frames' = Append(frames, [k |-> "arr", c |-> todo.c, least |-> todo.least, size |-> n, done |-> 0])
            /\ todo' = Nothing

More == /\ todo = Nothing /\ frames # <<>> /\ Top.k = "arr" /\ Top.done < Top.size
        /\ Broken = "optional" \/ MayContinue(steps, hard, Top.least, Top.done + 1)
        /\ frames' = [frames EXCEPT ![Len(frames)].done = @ + 1]
        /\ todo' = Child(Top.c) /\ UNCHANGED <<steps, refs>>

Finish == /\ todo = Nothing /\ frames # <<>> /\ ~ENABLED More
          /\ frames' = Up /\ UNCHANGED <<steps, todo>>
          /\ refs' = IF Top.k = "ref" /\ ~(Broken = "pop" /\ CutOff(steps, hard)) THEN SubSeq(refs, 1, Len(refs) - 1) ELSE refs

Next == (Leaf \/ Reference \/ Array \/ More \/ Finish) /\ UNCHANGED limits
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Done == todo = Nothing /\ frames = <<>>

(* C14 *)
Terminates == <>Done
RECURSIVE Owed(_)
Owed(fs) == IF fs = <<>> THEN 0
            ELSE Owed(Tail(fs)) + (IF Head(fs).k = "arr" /\ Head(fs).least > Head(fs).done THEN Head(fs).least - Head(fs).done ELSE 0)
Left == Owed(frames) + (IF todo = Nothing THEN 0 ELSE 1)
(* past the cutoff only what was already owed is still made, one step each     *)
OnlyOwed == [][CutOff(steps, hard) => steps' + Left' <= steps + Left]_vars
NothingStarts == [][CutOff(steps, hard) => Len(frames') <= Len(frames)]_vars

(* C15 *)
Enclosing == LET F[n \in 0..Len(frames)] == IF n = 0 THEN <<>> ELSE IF frames[n].k = "ref" THEN Append(F[n - 1], frames[n].c) ELSE F[n - 1] IN F[Len(frames)]
Balanced == refs = Enclosing
DepthLimited == Len(refs) <= depth + 1
NoCycles == bypass \/ \A m, n \in DOMAIN refs : m # n => refs[m] # refs[n]

(* C16 *)
Minimal == [][Len(frames') > Len(frames) /\ frames'[Len(frames')].k = "arr" /\ Minimised(steps, soft) => frames'[Len(frames')].size = frames'[Len(frames')].least]_vars
Sufficient == [][Len(frames') < Len(frames) /\ Top.k = "arr" => Top.done >= Top.least]_vars
=============================================================================
