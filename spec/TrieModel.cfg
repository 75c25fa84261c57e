SPECIFICATION Spec
INVARIANT Refines
INVARIANT Branches
INVARIANT Linked
INVARIANT Small
INVARIANT Dump
CHECK_DEADLOCK FALSE
