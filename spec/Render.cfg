SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANT Complete
INVARIANT InOrder
INVARIANT Emit
CHECK_DEADLOCK FALSE
