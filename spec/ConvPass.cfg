SPECIFICATION Spec
CONSTANT N = 3
INVARIANT OwnResult
INVARIANT KeptOnes
INVARIANT Emit
CHECK_DEADLOCK FALSE
