SPECIFICATION Spec
CONSTANTS Procs = {p1, p2} Calls = 2 Steps = 3 Limit = 4 Copies = FALSE
INVARIANTS Independent
CHECK_DEADLOCK FALSE
