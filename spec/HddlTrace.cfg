SPECIFICATION Spec
INVARIANTS SameNames SameMethods SameActions SameProblem
CHECK_DEADLOCK FALSE
