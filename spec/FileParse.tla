----------------------------- MODULE FileParse -----------------------------
(* The parse of FilePolicy file by file, for every policy of a few paths, from *)
(* every reference to a place of the world. Broken_ takes a rule away.          *)
EXTENDS FilePolicy

CONSTANTS Broken_
VARIABLES c, todo, read, denied
vars == <<c, todo, read, denied>>

Places == DOMAIN World
Policies == [enabled : BOOLEAN, outside : BOOLEAN, cwd : {<<"w">>, <<"wl">>}, mode : {"text"}, root : {<<>>},
             allowed : {<<>>, <<Rel(<<".">>)>>, <<Rel(<<"sub">>)>>, <<Rel(<<"..">>)>>, <<Rel(<<"..", "out">>)>>, <<Rel(<<"lf.json">>)>>, <<Rel(<<"in.json">>), Abs(<<"out", "deep">>)>>}]
Starts == { Rel(p[1]) : p \in { <<q>> : q \in { <<"..">> \o r : r \in Places \ {<<>>} } } } \cup { Rel(<<"..dots">>), Rel(<<"sub", "..", "in.json">>), Rel(<<"ld", "..", "in.json">>), Rel(<<"missing.json">>) }

Init == /\ c \in Policies /\ \E r \in Starts : todo = Work(RootDir(c), <<r>>)
        /\ read = {} /\ denied = FALSE
(* The file that a path is judged by, which is the one that is read             *)
Judged(w) == IF Broken_ = "links" THEN Lexical(w.dir, w.ref) ELSE Target(w.dir, w.ref)
Names(p, d) == Len(d) > 0 /\ Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d) - 1) = SubSeq(d, 1, Len(d) - 1)
Allowed(p) == /\ c.enabled
              /\ c.outside \/ Within(RealPath(c.cwd), p)
              /\ IF Broken_ = "siblings" THEN \E d \in AllowedDirs(c) : Within(d, p) \/ Names(p, d) ELSE \E d \in AllowedDirs(c) : Within(d, p)
Exists(w) == LET p == Target(w.dir, w.ref) IN p # Missing /\ World[p].k = "file"
Step(w) == /\ w \in todo
           /\ LET p == Target(w.dir, w.ref) IN
              IF Exists(w) /\ Allowed(Judged(w))
              THEN /\ read' = read \cup {p} /\ todo' = (todo \ {w}) \cup (IF p \in read THEN {} ELSE Work(Front(p), World[p].refs)) /\ UNCHANGED denied
              ELSE /\ denied' = TRUE /\ todo' = todo \ {w} /\ UNCHANGED read
           /\ UNCHANGED c
Next == \E w \in todo : Step(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C13, in terms of the tree alone                                              *)
Disabled == ~c.enabled \/ c.allowed = <<>> => read = {}
Inside == ~c.outside => \A p \in read : IsPrefix(RealPath(c.cwd), p)
Listed == \A p \in read : \E a \in Rng(c.allowed) : LET d == Target(c.cwd, a) IN d # Missing /\ IsPrefix(d, p)
Done == todo = {}
Ends == <>Done
(* What the replay asks for: everything that may be read is                     *)
Follows == Done => \A p \in read : \A r \in Rng(World[p].refs) : MayRead(c, Target(Front(p), r)) => Target(Front(p), r) \in read
=============================================================================
