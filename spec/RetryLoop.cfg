CONSTANTS Bases = {0, 1, 2, 3, 7} Softs = {0, 1, 4, 9} Hards = {0, 1, 4, 12, 30} Steps = {1, 3, 6}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Positive Shrinking Bounded Possible
