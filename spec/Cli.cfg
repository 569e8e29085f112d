SPECIFICATION Spec
INVARIANTS AsSaid OneDocument NothingOnFailure Keeps NoUninvitedRequest
CHECK_DEADLOCK FALSE
