SPECIFICATION Spec
INVARIANTS ClausesHold Exclusions
CHECK_DEADLOCK FALSE
