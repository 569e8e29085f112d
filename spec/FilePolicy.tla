----------------------------- MODULE FilePolicy -----------------------------
(* Which files a parse may read, and which it has to read.                    *)
(*                                                                            *)
(* A parse is a work list machine: references that were met are either        *)
(* denied, which is reported, or followed, which reads the file they lead to  *)
(* and meets the references in there.                                         *)
(*                                                                            *)
(* The world is a file tree (paths are sequences of names below a scratch     *)
(* directory): directories, symbolic links and files that refer to others.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(q) == { q[j] : j \in DOMAIN q }
Front(q) == SubSeq(q, 1, Len(q) - 1)
Last(q) == q[Len(q)]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Rel(p) == [form |-> "rel", path |-> p]
Abs(p) == [form |-> "abs", path |-> p]
Url(p) == [form |-> "url", path |-> p]

Dir == [k |-> "dir"]
File(refs) == [k |-> "file", refs |-> refs]
LinkTo(p) == [k |-> "link", form |-> "rel", path |-> p]
LinkAbs(p) == [k |-> "link", form |-> "abs", path |-> p]

World ==
    (<<>> :> Dir) @@
    (<<"w">> :> Dir) @@ (<<"w", "sub">> :> Dir) @@ (<<"w2">> :> Dir) @@ (<<"out">> :> Dir) @@ (<<"out", "deep">> :> Dir) @@
    (<<"w", "in.json">> :> File(<<>>)) @@
    (<<"w", "sub", "s.json">> :> File(<<>>)) @@
    (<<"w", "sub", "up.json">> :> File(<<Rel(<<"..", "in.json">>)>>)) @@
    (<<"w", "chain.json">> :> File(<<Rel(<<"..", "out", "o.json">>)>>)) @@
    (<<"w", "two.json">> :> File(<<Rel(<<"sub", "s.json">>), Rel(<<"lf.json">>)>>)) @@
    (<<"w", "..dots">> :> File(<<>>)) @@
    (<<"w2", "p.json">> :> File(<<>>)) @@
    (<<"w2", "in.json">> :> File(<<>>)) @@
    (<<"out", "o.json">> :> File(<<>>)) @@
    (<<"out", "deep", "d.json">> :> File(<<>>)) @@
    (<<"out", "chain2.json">> :> File(<<Rel(<<"deep", "d.json">>)>>)) @@
    (<<"out", "home.json">> :> File(<<Rel(<<"..", "w", "in.json">>)>>)) @@
    (<<"w", "lf.json">> :> LinkTo(<<"..", "out", "o.json">>)) @@
    (<<"w", "ld">> :> LinkTo(<<"..", "out">>)) @@
    (<<"w", "li.json">> :> LinkTo(<<"sub", "s.json">>)) @@
    (<<"w", "labs.json">> :> LinkAbs(<<"out", "deep", "d.json">>)) @@
    (<<"w", "ltwice.json">> :> LinkTo(<<"ld", "o.json">>)) @@
    (<<"w", "loop.json">> :> LinkTo(<<"loop.json">>)) @@
    (<<"out", "back">> :> LinkTo(<<"..", "w">>)) @@
    (<<"out", "lin.json">> :> LinkTo(<<"back", "sub", "s.json">>)) @@
    (<<"wl">> :> LinkTo(<<"w">>))

(* Path resolution ---------------------------------------------------------- *)
(* Dot segments of a reference are removed first (it is a relative URI), then *)
(* symbolic links are followed, where .. means the real parent.               *)
RECURSIVE Clean(_, _)
Clean(done, rest) ==
    IF rest = <<>> THEN done
    ELSE IF Head(rest) = "." THEN Clean(done, Tail(rest))
    ELSE IF Head(rest) = ".." THEN Clean(IF done = <<>> THEN done ELSE Front(done), Tail(rest))
    ELSE Clean(Append(done, Head(rest)), Tail(rest))

Missing == <<"missing">>
RECURSIVE Real(_, _, _)
Real(at, rest, fuel) ==
    IF fuel = 0 THEN Missing
    ELSE IF rest = <<>> THEN at
    ELSE IF Head(rest) = "." THEN Real(at, Tail(rest), fuel - 1)
    ELSE IF Head(rest) = ".." THEN Real(Front(at), Tail(rest), fuel - 1)
    ELSE LET next == Append(at, Head(rest)) IN
         IF next \notin DOMAIN World THEN Missing
         ELSE IF World[next].k = "link"
         THEN Real(IF World[next].form = "abs" THEN <<>> ELSE at, World[next].path \o Tail(rest), fuel - 1)
         ELSE Real(next, Tail(rest), fuel - 1)
RealPath(p) == Real(<<>>, p, 25)

Lexical(dir, ref) == IF ref.form = "rel" THEN Clean(dir, ref.path) ELSE Clean(<<>>, ref.path)
Target(dir, ref) == RealPath(Lexical(dir, ref))

(* Policy: enabled, outside (of the working directory is fine), allowed (paths, relative to it), cwd *)
Within(dir, p) == IsPrefix(dir, p)
AllowedDirs(c) == { Target(c.cwd, a) : a \in Rng(c.allowed) } \ {Missing}
MayRead(c, p) ==
    /\ c.enabled
    /\ p # Missing
    /\ World[p].k = "file"
    /\ c.outside \/ Within(RealPath(c.cwd), p)
    /\ \E d \in AllowedDirs(c) : Within(d, p)

(* The root document: a text parsed in the working directory, a file, or a    *)
(* text with a location of its own.                                           *)
RootDir(c) == CASE c.mode = "text" -> c.cwd [] c.mode = "file" -> Front(RealPath(c.root)) [] c.mode = "relativeTo" -> Front(c.root)

Work(dir, refs) == { [dir |-> dir, ref |-> r] : r \in Rng(refs) }

(* What is left to do after a reference was followed into p                    *)
Follow(c, todo, w, p) == (todo \ {w}) \cup Work(Front(p), World[p].refs)

(* Everything that gets read, as a closure (the machine has to end up there)   *)
RECURSIVE Closure(_, _, _)
Closure(c, todo, seen) ==
    LET next == { Target(w.dir, w.ref) : w \in { x \in todo : MayRead(c, Target(x.dir, x.ref)) } } \ seen
    IN IF next = {} THEN seen ELSE Closure(c, UNION { Work(Front(p), World[p].refs) : p \in next }, seen \cup next)
=============================================================================
