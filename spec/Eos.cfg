SPECIFICATION Spec
INVARIANT OrderIndependent
INVARIANT ErrorOnlyForCC
INVARIANT UniversalFine
INVARIANT ZeroGivesSM
INVARIANT Emit
CHECK_DEADLOCK FALSE
