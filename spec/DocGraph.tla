------------------------------ MODULE DocGraph ------------------------------
(* Parsing a schema that is spread over documents.                            *)
(*                                                                            *)
(* The documents are the nodes of a graph, edges says which ones a document   *)
(* refers to, fails which of them can not be had. A parse is a work list      *)
(* machine: a document that was referred to by something that was read is     *)
(* asked for, at most once, in any order.                                     *)
EXTENDS Naturals, Sequences, FiniteSets

Elems(q) == { q[j] : j \in DOMAIN q }
Edges(g, d) == IF d \in DOMAIN g.edges THEN Elems(g.edges[d]) ELSE {}
CanRead(g, d) == d \notin Elems(g.fails)

(* what may be asked for once the documents in asked were                      *)
Wanted(g, asked) == UNION { Edges(g, d) : d \in { x \in asked : CanRead(g, x) } } \ asked

RECURSIVE Grow(_, _)
Grow(g, asked) == IF Wanted(g, asked) = {} THEN asked ELSE Grow(g, asked \cup Wanted(g, asked))
Reachable(g) == Grow(g, {g.root})
Broken(g) == \E d \in Reachable(g) : ~CanRead(g, d)
=============================================================================
