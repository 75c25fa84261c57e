SPECIFICATION Spec
INVARIANT ClaimHolds
CONSTRAINT Within
CHECK_DEADLOCK FALSE
