CONSTANTS Broken_ = "hops"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Disabled OnlySecure OnlyAllowed Limited Complete Tells
PROPERTIES Ends
