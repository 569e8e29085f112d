---- MODULE HttpParse_TTrace_1795145976 ----
EXTENDS Sequences, TLCExt, HttpParse, Toolbox, Naturals, TLC

_expression ==
    LET HttpParse_TEExpression == INSTANCE HttpParse_TEExpression
    IN HttpParse_TEExpression!expression
----

_trace ==
    LET HttpParse_TETrace == INSTANCE HttpParse_TETrace
    IN HttpParse_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        todo = ({})
        /\
        at = (<<"idle">>)
        /\
        c = ([enabled |-> TRUE, insecure |-> FALSE, allowed |-> <<>>])
        /\
        hops = (2)
        /\
        denied = (FALSE)
        /\
        sent = ({<<"s", "redirect-b">>, <<"b", "d", "leaf.json">>})
        /\
        met = ({<<"s", "redirect-b">>})
        /\
        base = (<<"idle">>)
    )
----

_init ==
    /\ at = _TETrace[1].at
    /\ c = _TETrace[1].c
    /\ hops = _TETrace[1].hops
    /\ sent = _TETrace[1].sent
    /\ base = _TETrace[1].base
    /\ todo = _TETrace[1].todo
    /\ denied = _TETrace[1].denied
    /\ met = _TETrace[1].met
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ at  = _TETrace[i].at
        /\ at' = _TETrace[j].at
        /\ c  = _TETrace[i].c
        /\ c' = _TETrace[j].c
        /\ hops  = _TETrace[i].hops
        /\ hops' = _TETrace[j].hops
        /\ sent  = _TETrace[i].sent
        /\ sent' = _TETrace[j].sent
        /\ base  = _TETrace[i].base
        /\ base' = _TETrace[j].base
        /\ todo  = _TETrace[i].todo
        /\ todo' = _TETrace[j].todo
        /\ denied  = _TETrace[i].denied
        /\ denied' = _TETrace[j].denied
        /\ met  = _TETrace[i].met
        /\ met' = _TETrace[j].met

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("HttpParse_TTrace_1795145976.json", _TETrace)

=============================================================================

 Note that you can extract this module `HttpParse_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `HttpParse_TEExpression.tla` file takes precedence 
  over the module `HttpParse_TEExpression` below).

---- MODULE HttpParse_TEExpression ----
EXTENDS Sequences, TLCExt, HttpParse, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `HttpParse` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        at |-> at
        ,c |-> c
        ,hops |-> hops
        ,sent |-> sent
        ,base |-> base
        ,todo |-> todo
        ,denied |-> denied
        ,met |-> met
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_atUnchanged |-> at = at'
        
        \* Format the `at` variable as Json value.
        \* ,_atJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(at)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_atModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].at # _TETrace[s-1].at
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE HttpParse_TETrace ----
\*EXTENDS IOUtils, HttpParse, TLC
\*
\*trace == IODeserialize("HttpParse_TTrace_1795145976.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE HttpParse_TETrace ----
EXTENDS HttpParse, TLC

trace == 
    <<
    ([todo |-> {<<"s", "redirect-b">>},at |-> <<"idle">>,c |-> [enabled |-> TRUE, insecure |-> FALSE, allowed |-> <<>>],hops |-> 0,denied |-> FALSE,sent |-> {},met |-> {},base |-> <<"idle">>]),
    ([todo |-> {},at |-> <<"s", "redirect-b">>,c |-> [enabled |-> TRUE, insecure |-> FALSE, allowed |-> <<>>],hops |-> 0,denied |-> FALSE,sent |-> {},met |-> {<<"s", "redirect-b">>},base |-> <<"s", "redirect-b">>]),
    ([todo |-> {},at |-> <<"b", "d", "leaf.json">>,c |-> [enabled |-> TRUE, insecure |-> FALSE, allowed |-> <<>>],hops |-> 1,denied |-> FALSE,sent |-> {<<"s", "redirect-b">>},met |-> {<<"s", "redirect-b">>},base |-> <<"s", "redirect-b">>]),
    ([todo |-> {},at |-> <<"idle">>,c |-> [enabled |-> TRUE, insecure |-> FALSE, allowed |-> <<>>],hops |-> 2,denied |-> FALSE,sent |-> {<<"s", "redirect-b">>, <<"b", "d", "leaf.json">>},met |-> {<<"s", "redirect-b">>},base |-> <<"idle">>])
    >>
----


=============================================================================

---- CONFIG HttpParse_TTrace_1795145976 ----
CONSTANTS
    Broken_ = "hops"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 03:39:38 UTC 2026