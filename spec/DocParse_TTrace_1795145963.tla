---- MODULE DocParse_TTrace_1795145963 ----
EXTENDS Sequences, TLCExt, DocParse, Toolbox, Naturals, TLC

_expression ==
    LET DocParse_TEExpression == INSTANCE DocParse_TEExpression
    IN DocParse_TEExpression!expression
----

_trace ==
    LET DocParse_TETrace == INSTANCE DocParse_TETrace
    IN DocParse_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        times = ([a |-> 0, b |-> 0, r |-> 2])
        /\
        asked = ({"r"})
        /\
        g = ([root |-> "r", edges |-> [a |-> <<>>, b |-> <<>>, r |-> <<"r">>], fails |-> <<>>])
        /\
        reported = (FALSE)
        /\
        had = ({"r"})
        /\
        queue = ({})
    )
----

_init ==
    /\ times = _TETrace[1].times
    /\ had = _TETrace[1].had
    /\ g = _TETrace[1].g
    /\ asked = _TETrace[1].asked
    /\ reported = _TETrace[1].reported
    /\ queue = _TETrace[1].queue
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ times  = _TETrace[i].times
        /\ times' = _TETrace[j].times
        /\ had  = _TETrace[i].had
        /\ had' = _TETrace[j].had
        /\ g  = _TETrace[i].g
        /\ g' = _TETrace[j].g
        /\ asked  = _TETrace[i].asked
        /\ asked' = _TETrace[j].asked
        /\ reported  = _TETrace[i].reported
        /\ reported' = _TETrace[j].reported
        /\ queue  = _TETrace[i].queue
        /\ queue' = _TETrace[j].queue

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("DocParse_TTrace_1795145963.json", _TETrace)

=============================================================================

 Note that you can extract this module `DocParse_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `DocParse_TEExpression.tla` file takes precedence 
  over the module `DocParse_TEExpression` below).

---- MODULE DocParse_TEExpression ----
EXTENDS Sequences, TLCExt, DocParse, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `DocParse` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        times |-> times
        ,had |-> had
        ,g |-> g
        ,asked |-> asked
        ,reported |-> reported
        ,queue |-> queue
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_timesUnchanged |-> times = times'
        
        \* Format the `times` variable as Json value.
        \* ,_timesJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(times)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_timesModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].times # _TETrace[s-1].times
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE DocParse_TETrace ----
\*EXTENDS IOUtils, DocParse, TLC
\*
\*trace == IODeserialize("DocParse_TTrace_1795145963.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE DocParse_TETrace ----
EXTENDS DocParse, TLC

trace == 
    <<
    ([times |-> [a |-> 0, b |-> 0, r |-> 0],asked |-> {},g |-> [root |-> "r", edges |-> [a |-> <<>>, b |-> <<>>, r |-> <<"r">>], fails |-> <<>>],reported |-> FALSE,had |-> {},queue |-> {"r"}]),
    ([times |-> [a |-> 0, b |-> 0, r |-> 1],asked |-> {"r"},g |-> [root |-> "r", edges |-> [a |-> <<>>, b |-> <<>>, r |-> <<"r">>], fails |-> <<>>],reported |-> FALSE,had |-> {},queue |-> {}]),
    ([times |-> [a |-> 0, b |-> 0, r |-> 1],asked |-> {"r"},g |-> [root |-> "r", edges |-> [a |-> <<>>, b |-> <<>>, r |-> <<"r">>], fails |-> <<>>],reported |-> FALSE,had |-> {"r"},queue |-> {"r"}]),
    ([times |-> [a |-> 0, b |-> 0, r |-> 2],asked |-> {"r"},g |-> [root |-> "r", edges |-> [a |-> <<>>, b |-> <<>>, r |-> <<"r">>], fails |-> <<>>],reported |-> FALSE,had |-> {"r"},queue |-> {}])
    >>
----


=============================================================================

---- CONFIG DocParse_TTrace_1795145963 ----
CONSTANTS
    Others = { "a" , "b" }
    Broken_ = "again"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 03:39:26 UTC 2026