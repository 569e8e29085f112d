----------------------------- MODULE HttpPolicy -----------------------------
(* Which requests a parse may make, and which it has to make.                 *)
(*                                                                            *)
(* The world is a set of sites (a, b speak http, s, t https, all have hosts   *)
(* of their own) that answer requests with documents, redirects or failures.  *)
(* As in FilePolicy a parse is a work list machine: references that were met  *)
(* are denied or followed. Following one is one or more requests, each of     *)
(* which has to be permitted by itself.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(q) == { q[j] : j \in DOMAIN q }
Front(q) == SubSeq(q, 1, Len(q) - 1)
NoPath == [x \in {} |-> 0]

Sites == {"a", "b", "s", "t"}
Secure == {"s", "t"}

At(site, path) == [form |-> "abs", site |-> site, path |-> path]      \* scheme://host/path
Net(site, path) == [form |-> "net", site |-> site, path |-> path]     \* //host/path (the scheme of the document it is in)
Top(path) == [form |-> "top", site |-> "", path |-> path]             \* /path
Rel(path) == [form |-> "rel", site |-> "", path |-> path]             \* path
Doc(refs) == [k |-> "doc", refs |-> refs]
Redirect(to) == [k |-> "redirect", to |-> to]
Leaf == Doc(<<>>)

Common(x) ==
    (<<x, "leaf.json">> :> Leaf) @@
    (<<x, "d", "leaf.json">> :> Leaf) @@
    (<<x, "rel.json">> :> Doc(<<Rel(<<"leaf.json">>)>>)) @@
    (<<x, "d", "up.json">> :> Doc(<<Rel(<<"..", "leaf.json">>), Rel(<<"leaf.json">>)>>)) @@
    (<<x, "d", "top.json">> :> Doc(<<Top(<<"leaf.json">>)>>)) @@
    (<<x, "c1.json">> :> Doc(<<Rel(<<"c2.json">>)>>)) @@
    (<<x, "c2.json">> :> Doc(<<Rel(<<"c1.json">>)>>)) @@
    (<<x, "diamond.json">> :> Doc(<<Rel(<<"rel.json">>), Rel(<<"d", "top.json">>), Rel(<<"leaf.json">>)>>)) @@
    (<<x, "broken.json">> :> [k |-> "broken"]) @@
    (<<x, "error.json">> :> [k |-> "error"]) @@
    (<<x, "needs-missing.json">> :> Doc(<<Rel(<<"missing.json">>), Rel(<<"leaf.json">>)>>)) @@
    (<<x, "self.json">> :> Redirect(Top(<<"leaf.json">>))) @@
    (<<x, "loop.json">> :> Redirect(Rel(<<"loop.json">>))) @@
    (<<x, "r5.json">> :> Redirect(Rel(<<"r4.json">>))) @@ (<<x, "r4.json">> :> Redirect(Rel(<<"r3.json">>))) @@ (<<x, "r3.json">> :> Redirect(Rel(<<"self.json">>)))

To(x, y) ==
    (<<x, "ref-" \o y>> :> Doc(<<At(y, <<"leaf.json">>)>>)) @@
    (<<x, "net-" \o y>> :> Doc(<<Net(y, <<"leaf.json">>)>>)) @@
    (<<x, "redirect-" \o y>> :> Redirect(At(y, <<"d", "leaf.json">>))) @@
    (<<x, "double-" \o y>> :> Redirect(At(y, <<"self.json">>))) @@
    (<<x, "back-" \o y>> :> Redirect(At(y, <<"redirect-" \o x>>))) @@
    (<<x, "second-" \o y>> :> Redirect(Rel(<<"redirect-" \o y>>))) @@
    (<<x, "third-" \o y>> :> Redirect(Rel(<<"second-" \o y>>)))

RECURSIVE Merge(_)
Merge(fs) == IF fs = {} THEN NoPath ELSE LET f == CHOOSE f \in fs : TRUE IN f @@ Merge(fs \ {f})
World == Merge({ Common(x) : x \in Sites }) @@ Merge({ To(p[1], p[2]) : p \in { q \in Sites \X Sites : q[1] # q[2] } })

SameScheme(x, y) == (x \in Secure) <=> (y \in Secure)

(* Resolution of references ------------------------------------------------- *)
RECURSIVE Clean(_, _)
Clean(done, rest) ==
    IF rest = <<>> THEN done
    ELSE IF Head(rest) = ".." THEN Clean(IF done = <<>> THEN done ELSE Front(done), Tail(rest))
    ELSE Clean(Append(done, Head(rest)), Tail(rest))
Nowhere == <<"nowhere">>
(* base is where the document is, <<>> if it has no location on the web        *)
Target(base, ref) ==
    IF ref.form = "abs" THEN <<ref.site>> \o ref.path
    ELSE IF base = <<>> THEN Nowhere
    ELSE IF ref.form = "net" THEN (IF SameScheme(base[1], ref.site) THEN <<ref.site>> \o ref.path ELSE Nowhere)
    ELSE IF ref.form = "top" THEN <<base[1]>> \o ref.path
    ELSE Clean(Front(base), ref.path)

(* Policy: enabled, insecure, allowed (sites; every site if there are none)    *)
(* Hosts are listed as such or as the URL of a site. Only a part of a host, or   *)
(* more than it, is another host.                                              *)
Means(a, site) == a.form \in {"host", "url"} /\ a.site = site
MayRequest(c, u) ==
    /\ c.enabled
    /\ u # Nowhere
    /\ c.insecure \/ u[1] \in Secure
    /\ c.allowed = <<>> \/ \E j \in DOMAIN c.allowed : Means(c.allowed[j], u[1])

MaxRequests == 10
Failed == <<"failed">>
Answer(u) == IF u \in DOMAIN World THEN World[u] ELSE [k |-> "missing"]
(* The document a request ends up with                                         *)
RECURSIVE Fetch(_, _, _)
Fetch(c, u, n) ==
    IF ~MayRequest(c, u) \/ n = 0 THEN Failed
    ELSE IF Answer(u).k = "redirect" THEN Fetch(c, Target(u, Answer(u).to), n - 1)
    ELSE IF Answer(u).k = "doc" THEN u
    ELSE Failed
Result(c, u) == Fetch(c, u, MaxRequests)

Work(base, refs) == { [base |-> base, ref |-> r] : r \in Rng(refs) }
(* References of the document found at u                                        *)
RefsOf(c, u) == IF Result(c, u) = Failed THEN {} ELSE Work(u, World[Result(c, u)].refs)

RECURSIVE Closure(_, _, _)
Closure(c, todo, seen) ==
    LET next == { Target(w.base, w.ref) : w \in { x \in todo : MayRequest(c, Target(x.base, x.ref)) } } \ seen
    IN IF next = {} THEN seen ELSE Closure(c, UNION { RefsOf(c, u) : u \in next }, seen \cup next)
=============================================================================
