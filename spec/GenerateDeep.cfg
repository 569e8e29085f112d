CONSTANTS Names = {"a", "b"} MaxSize = 2 Softs = {0, 1, 2, 4} Hards = {0, 1, 3, 5} Depths = {0, 1, 2} Broken = ""
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Balanced DepthLimited NoCycles
PROPERTIES Terminates OnlyOwed NothingStarts Minimal Sufficient
