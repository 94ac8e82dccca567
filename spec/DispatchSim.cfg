SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT EmitStep
CHECK_DEADLOCK FALSE
