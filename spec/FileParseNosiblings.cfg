CONSTANTS Broken_ = "siblings"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Disabled Inside Listed Follows
PROPERTIES Ends
