---- MODULE FileParse_TTrace_1795145991 ----
EXTENDS Sequences, TLCExt, FileParse, Toolbox, Naturals, TLC

_expression ==
    LET FileParse_TEExpression == INSTANCE FileParse_TEExpression
    IN FileParse_TEExpression!expression
----

_trace ==
    LET FileParse_TETrace == INSTANCE FileParse_TETrace
    IN FileParse_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        todo = ({})
        /\
        c = ([enabled |-> TRUE, outside |-> FALSE, cwd |-> <<"w">>, mode |-> "text", root |-> <<>>, allowed |-> <<[form |-> "rel", path |-> <<".">>]>>])
        /\
        read = ({<<"out", "o.json">>})
        /\
        denied = (FALSE)
    )
----

_init ==
    /\ c = _TETrace[1].c
    /\ todo = _TETrace[1].todo
    /\ denied = _TETrace[1].denied
    /\ read = _TETrace[1].read
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ c  = _TETrace[i].c
        /\ c' = _TETrace[j].c
        /\ todo  = _TETrace[i].todo
        /\ todo' = _TETrace[j].todo
        /\ denied  = _TETrace[i].denied
        /\ denied' = _TETrace[j].denied
        /\ read  = _TETrace[i].read
        /\ read' = _TETrace[j].read

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("FileParse_TTrace_1795145991.json", _TETrace)

=============================================================================

 Note that you can extract this module `FileParse_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `FileParse_TEExpression.tla` file takes precedence 
  over the module `FileParse_TEExpression` below).

---- MODULE FileParse_TEExpression ----
EXTENDS Sequences, TLCExt, FileParse, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `FileParse` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        c |-> c
        ,todo |-> todo
        ,denied |-> denied
        ,read |-> read
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_cUnchanged |-> c = c'
        
        \* Format the `c` variable as Json value.
        \* ,_cJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(c)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_cModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].c # _TETrace[s-1].c
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE FileParse_TETrace ----
\*EXTENDS IOUtils, FileParse, TLC
\*
\*trace == IODeserialize("FileParse_TTrace_1795145991.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE FileParse_TETrace ----
EXTENDS FileParse, TLC

trace == 
    <<
    ([todo |-> {[dir |-> <<"w">>, ref |-> [form |-> "rel", path |-> <<"..", "w", "lf.json">>]]},c |-> [enabled |-> TRUE, outside |-> FALSE, cwd |-> <<"w">>, mode |-> "text", root |-> <<>>, allowed |-> <<[form |-> "rel", path |-> <<".">>]>>],read |-> {},denied |-> FALSE]),
    ([todo |-> {},c |-> [enabled |-> TRUE, outside |-> FALSE, cwd |-> <<"w">>, mode |-> "text", root |-> <<>>, allowed |-> <<[form |-> "rel", path |-> <<".">>]>>],read |-> {<<"out", "o.json">>},denied |-> FALSE])
    >>
----


=============================================================================

---- CONFIG FileParse_TTrace_1795145991 ----
CONSTANTS
    Broken_ = "links"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 03:39:55 UTC 2026