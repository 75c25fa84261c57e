SPECIFICATION Spec
INVARIANT AnswerOK
INVARIANT CountOK
CHECK_DEADLOCK FALSE
