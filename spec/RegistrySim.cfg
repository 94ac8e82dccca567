SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANT TypeOK
INVARIANT EmitStep
CHECK_DEADLOCK FALSE
