SPECIFICATION Spec
CONSTANTS Procs = {p1, p2, p3} Calls = 2 Steps = 3 Limit = 4 Copies = TRUE
INVARIANTS Unchanged Independent
CHECK_DEADLOCK FALSE
