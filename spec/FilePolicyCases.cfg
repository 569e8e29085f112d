SPECIFICATION Spec
INVARIANTS Contained Confluent
PROPERTY Ends
CHECK_DEADLOCK FALSE
