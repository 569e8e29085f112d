SPECIFICATION Spec
INVARIANTS Once Sound Complete
PROPERTY Stops
CHECK_DEADLOCK FALSE
