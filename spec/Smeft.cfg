SPECIFICATION Spec
INVARIANT GenSound
INVARIANT IndepIsSelf
INVARIANT OnlyIndep
INVARIANT Symmetric
INVARIANT QRelation
INVARIANT QCount
INVARIANT Count2499
INVARIANT MassSound
INVARIANT Emit
CHECK_DEADLOCK FALSE
