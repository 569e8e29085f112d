CONSTANTS Names = {"a", "b"} MaxSize = 2 Softs = {0, 1, 2} Hards = {0, 3} Depths = {0, 1} Broken = ""
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Balanced DepthLimited NoCycles
PROPERTIES Terminates OnlyOwed NothingStarts Minimal Sufficient
