CONSTANTS Names = {"a", "b"} MaxSize = 2 Softs = {0, 1} Hards = {0, 2} Depths = {0, 1} Broken = "pop"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Balanced DepthLimited NoCycles
PROPERTIES Terminates OnlyOwed NothingStarts Minimal Sufficient
