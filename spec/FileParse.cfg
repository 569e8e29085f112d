CONSTANTS Broken_ = ""
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Disabled Inside Listed Follows
PROPERTIES Ends
