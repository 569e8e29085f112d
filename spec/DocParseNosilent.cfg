CONSTANTS Others = {"a", "b"} Broken_ = "silent"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlyReferred Once AllOfThem TellsFailures
PROPERTIES Steps Ends
