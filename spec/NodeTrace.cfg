SPECIFICATION Spec
INVARIANT StepOK
INVARIANT EndOK
CHECK_DEADLOCK FALSE
