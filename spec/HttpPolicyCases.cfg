SPECIFICATION Spec
INVARIANTS Polite Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
