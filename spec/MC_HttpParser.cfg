SPECIFICATION Spec
INVARIANT SameRequests
PROPERTY AllAnswered
CHECK_DEADLOCK FALSE
