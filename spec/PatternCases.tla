---------------------------- MODULE PatternCases ----------------------------
(* Strings that are generated from a pattern are words of it, and each of its  *)
(* words is generated: the pieces of PatternWords put together, anchored or     *)
(* not, on their own and with limits for open repetitions.                     *)
EXTENDS PatternSets, Json

Edge == << [b |-> "^", e |-> "$"], [b |-> "", e |-> ""], [b |-> "^", e |-> ""], [b |-> "", e |-> "$"], [b |-> "^(", e |-> ")$"], [b |-> "\\A", e |-> "\\z"], [b |-> "^^", e |-> "$$"] >>
(* An empty alternative text needs a group around it                            *)
Text(x, k) == Edge[k].b \o x.t \o Edge[k].e
Case(x, k, gen) == [at |-> "root", schema |-> "{\"type\": \"string\", \"pattern\": " \o Q(Text(x, k)) \o "}",
    contract |-> "{\"enum\": [" \o Join(Quoted(x.w)) \o "]}", covers |-> LET q == Quoted(x.c) IN [ i \in DOMAIN q |-> "{\"const\": " \o q[i] \o "}" ], den |-> Greater(2, x.d), parse |-> gen]
(* Names have limits of their own                                               *)
Limit(m) == [regexStringOptions |-> [maxUnboundedRepeatCount |-> m, suppressRandomBytes |-> TRUE], regexPatternPropertyOptions |-> [maxUnboundedRepeatCount |-> m + 4]]

Cases == { <<x, 1, Default>> : x \in Level1 \cup Level2 \cup Level3 } \cup { <<x, k, Default>> : x \in Kinds \cup Small(Alternatives, IF Thorough THEN 9 ELSE 4), k \in DOMAIN Edge }
    \cup UNION { { <<x, 1, m>> : x \in Open(m) } : m \in {1, 2, 3, 5} } \cup { <<x, 1, Default>> : x \in Long \cup AnyCased }
(* Any character at all is a printable one where that is asked for              *)
Printable(t, opt, n, m) == [at |-> "root", schema |-> "{\"type\": \"string\", \"pattern\": " \o Q(t) \o "}", contract |-> "{\"pattern\": \"^[ -~]{" \o ToString(n) \o "," \o ToString(m) \o "}$\"}",
    covers |-> <<>>, den |-> 8, parse |-> [regexStringOptions |-> opt]]
Prints == UNION { { Printable("^.$", o, 1, 1), Printable("^.{3}$", o, 3, 3), Printable("^a.?$", o, 1, 2), Printable("^(.|b).$", o, 2, 2), Printable("^\\..$", o, 2, 2), Printable("^[.].{2}$", o, 3, 3), Printable("^.*$", o, 0, 4), Printable("^x.+$", o, 2, 5) } :
              o \in { [maxUnboundedRepeatCount |-> 4, suppressRandomBytes |-> TRUE], [maxUnboundedRepeatCount |-> 4, limitToAscii |-> TRUE], [maxUnboundedRepeatCount |-> 4, suppressRandomBytes |-> TRUE, limitToAscii |-> TRUE] } }
S == SetToSeq({ Case(c[1], c[2], Limit(c[3])) : c \in Cases } \cup Prints)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "pattern-" \o ToString(n), kind |-> "choice", extra |-> S[n]] ])
=============================================================================
