CONSTANTS Broken_ = ""
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Disabled OnlySecure OnlyAllowed Limited Complete Tells
PROPERTIES Ends
