-------------------------- MODULE FilePolicyCases --------------------------
(* Every policy x reference x working directory x kind of root document. The  *)
(* machine is checked on each of them, and each of them becomes a case.       *)
EXTENDS FilePolicy, Json, IOUtils, SequencesExt

Refs == { Rel(<<"in.json">>), Rel(<<".", "sub", "..", "in.json">>), Rel(<<"sub", "s.json">>), Rel(<<"..", "in.json">>), Rel(<<"..", "w", "in.json">>), Rel(<<"..", "w2", "p.json">>),
          Rel(<<"..", "out", "o.json">>), Rel(<<"lf.json">>), Rel(<<"ld", "o.json">>), Rel(<<"ld", "back", "in.json">>), Rel(<<"li.json">>),
          Rel(<<"labs.json">>), Rel(<<"ltwice.json">>), Rel(<<"loop.json">>), Rel(<<"nope.json">>), Rel(<<"sub">>), Rel(<<"sub", "up.json">>), Rel(<<"chain.json">>), Rel(<<"two.json">>),
          Rel(<<"ld", "chain2.json">>), Rel(<<"ld", "home.json">>), Rel(<<"ld", "lin.json">>), Rel(<<"..dots">>),
          Abs(<<"w", "in.json">>), Abs(<<"out", "o.json">>), Abs(<<"w", "..", "w2", "p.json">>), Url(<<"w", "in.json">>), Url(<<"out", "o.json">>), Url(<<"w", "..", "out", "deep", "d.json">>), Url(<<"wl", "in.json">>) }

AllowedLists == { <<>>, <<Rel(<<".">>)>>, <<Rel(<<"sub">>)>>, <<Rel(<<"in.json">>)>>, <<Abs(<<>>)>>, <<Abs(<<"w">>)>>, <<Abs(<<"out">>)>>, <<Abs(<<"w2">>)>>, <<Rel(<<"ld">>)>>, <<Rel(<<"..">>)>>,
                  <<Abs(<<"wl">>)>>, <<Abs(<<"out", "deep">>)>>, <<Abs(<<"w", "sub">>), Abs(<<"w2">>)>>, <<Rel(<<"lf.json">>)>>,
                  <<Abs(<<"w2">>), Abs(<<"out", "deep">>), Abs(<<"w", "sub">>), Abs(<<"out">>)>>, <<Abs(<<"w", "sub">>), Rel(<<"in.json">>), Abs(<<"w2">>)>> }

Roots == { [mode |-> "text", root |-> <<>>, cwd |-> <<"w">>], [mode |-> "text", root |-> <<>>, cwd |-> <<"wl">>], [mode |-> "text", root |-> <<>>, cwd |-> <<"out">>],
           [mode |-> "file", root |-> <<"w", "root.json">>, cwd |-> <<"w">>], [mode |-> "file", root |-> <<"w", "sub", "root.json">>, cwd |-> <<"w">>],
           [mode |-> "file", root |-> <<"wl", "root.json">>, cwd |-> <<"w">>], [mode |-> "file", root |-> <<"out", "root.json">>, cwd |-> <<"w">>], [mode |-> "file", root |-> <<"w", "root.json">>, cwd |-> <<"out">>],
           [mode |-> "relativeTo", root |-> <<"w", "sub", "any.json">>, cwd |-> <<"w">>] , [mode |-> "relativeTo", root |-> <<"out", "any.json">>, cwd |-> <<"w">>] }

(* (the root file itself is real in the world the case runs in)                *)
RootExists(r) == r.mode = "file" => RealPath(Front(r.root)) # Missing

(* A relative path in the list of allowed ones has to exist                    *)
Sound(c) == \A a \in Rng(c.allowed) : Target(c.cwd, a) # Missing

Policies == { [enabled |-> TRUE, outside |-> o, allowed |-> a] : o \in BOOLEAN, a \in AllowedLists } \cup { [enabled |-> FALSE, outside |-> TRUE, allowed |-> <<Abs(<<>>)>>] }

Pairs == { <<r>> : r \in Refs } \cup { <<Rel(<<"in.json">>), Abs(<<"out", "o.json">>)>>, <<Abs(<<"out", "o.json">>), Rel(<<"in.json">>)>>, <<Rel(<<"lf.json">>), Rel(<<"li.json">>), Rel(<<"in.json">>)>>,
          <<Rel(<<"chain.json">>), Url(<<"w2", "p.json">>)>>, <<Rel(<<"in.json">>), Abs(<<"w", "in.json">>), Rel(<<"sub", "up.json">>)>> }

AllCases == { c \in { r @@ p @@ [refs |-> q] : r \in Roots, p \in Policies, q \in Pairs } : Sound(c) }

RootDirOf(c) == CASE c.mode = "text" -> c.cwd [] c.mode = "file" -> RealPath(Front(c.root)) [] c.mode = "relativeTo" -> Front(c.root)

-----------------------------------------------------------------------------
(* The machine, on each of the cases                                           *)
VARIABLES c, todo, read, denied
vars == <<c, todo, read, denied>>

Init == c \in AllCases /\ todo = Work(RootDirOf(c), c.refs) /\ read = {} /\ denied = FALSE
Deny(w) == ~MayRead(c, Target(w.dir, w.ref)) /\ denied' = TRUE /\ todo' = todo \ {w} /\ UNCHANGED <<c, read>>
Take(w) == LET p == Target(w.dir, w.ref) IN
           /\ MayRead(c, p)
           /\ IF p \in read THEN todo' = todo \ {w} /\ UNCHANGED read
              ELSE todo' = Follow(c, todo, w, p) /\ read' = read \cup {p}
           /\ UNCHANGED <<c, denied>>
Next == \E w \in todo : Deny(w) \/ Take(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* What the policy is for, said again without the machine: there is no way up  *)
(* from a file that was read that misses the permitted directories.            *)
RECURSIVE Ancestors(_)
Ancestors(p) == IF p = <<>> THEN {p} ELSE {p} \cup Ancestors(Front(p))
Contained == \A p \in read :
    /\ c.enabled
    /\ World[p].k = "file"
    /\ \A n \in 1..Len(p) : World[SubSeq(p, 1, n)].k # "link"
    /\ Ancestors(p) \cap { RealPath(Lexical(c.cwd, a)) : a \in Rng(c.allowed) } # {}
    /\ ~c.outside => RealPath(c.cwd) \in Ancestors(p)
(* Whatever the order, the same files are read in the end                      *)
Confluent == todo = {} => read = Closure(c, Work(RootDirOf(c), c.refs), {})
Ends == <>(todo = {})

-----------------------------------------------------------------------------
Cases == LET cs == SetToSeq(AllCases) IN
         [ j \in 1..Len(cs) |-> [id |-> "file-policy-" \o ToString(j), kind |-> "files", extra |-> cs[j]] ]
Tree == LET ps == SetToSeq(DOMAIN World) IN [ j \in 1..Len(ps) |-> [path |-> ps[j], node |-> World[ps[j]]] ]
ASSUME ndJsonSerialize(IOEnv.OUT, <<[id |-> "world", kind |-> "world", extra |-> [nodes |-> Tree]]>> \o Cases)
=============================================================================
