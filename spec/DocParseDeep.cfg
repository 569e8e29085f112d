CONSTANTS Others = {"a", "b", "c"} Broken_ = ""
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OnlyReferred Once AllOfThem TellsFailures
PROPERTIES Steps
