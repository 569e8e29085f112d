----------------------------- MODULE NameCases -----------------------------
(* Names of properties that are generated from a pattern are words of it, each *)
(* of its words is a name at times, and names of several patterns come with    *)
(* the values of their own pattern.                                            *)
EXTENDS PatternSets, Json

Most_ == Small(Level1 \cup Level2, IF Thorough THEN 48 ELSE 9)
Opened(m) == Small(Open(m), 32)
Text(x) == "^" \o x.t \o "$"
Seq_(x) == Quoted(x.w)
Pairs_(q) == Join([ i \in DOMAIN q |-> q[i] \o ": {\"type\": \"null\"}" ])
Has(q) == [ i \in DOMAIN q |-> "{\"required\": [" \o q[i] \o "]}" ]
Alone(x) == [schema |-> "{\"type\": \"object\", \"patternProperties\": {" \o Q(Text(x)) \o ": {\"type\": \"null\"}}, \"additionalProperties\": false, \"minProperties\": 1, \"maxProperties\": 1}",
             contract |-> "{\"properties\": {" \o Pairs_(Seq_(x)) \o "}, \"additionalProperties\": false}", covers |-> Has(Quoted(x.c)), den |-> Greater(2, x.d)]
(* Next to another pattern with words of its own                               *)
Other == Then(Word("n"), Class("[0-1]", {"0", "1"}))
OtherPairs == "\"n0\": {\"type\": \"boolean\"}, \"n1\": {\"type\": \"boolean\"}"
Beside(x) == [schema |-> "{\"type\": \"object\", \"patternProperties\": {" \o Q(Text(x)) \o ": {\"type\": \"null\"}, " \o Q(Text(Other)) \o ": {\"type\": \"boolean\"}}, \"additionalProperties\": false}",
             contract |-> "{\"properties\": {" \o Pairs_(Seq_(x)) \o ", " \o OtherPairs \o "}, \"additionalProperties\": false}", covers |-> Has(Quoted(x.c)) \o Has(<<"\"n0\"", "\"n1\"">>), den |-> 4 * Greater(2, x.d)]
Limit(m) == [regexStringOptions |-> [maxUnboundedRepeatCount |-> m + 4], regexPatternPropertyOptions |-> [maxUnboundedRepeatCount |-> m, suppressRandomBytes |-> TRUE]]
With(r, m) == r @@ [at |-> "root", parse |-> Limit(m)]
Cases == { With(Alone(x), Default) : x \in Most_ } \cup { With(Beside(x), Default) : x \in Small(Kinds \cup Alternatives, 9) }
    \cup UNION { { With(Alone(x), m) : x \in Opened(m) } : m \in {1, 2, 3} }
S == SetToSeq(Cases)
ASSUME ndJsonSerialize(IOEnv.OUT, [ n \in DOMAIN S |-> [id |-> "name-" \o ToString(n), kind |-> "choice", extra |-> S[n]] ])
=============================================================================
