SPECIFICATION Spec
INVARIANT ContainedOK
INVARIANT ReachOK
CHECK_DEADLOCK FALSE
