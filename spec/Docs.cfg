SPECIFICATION Spec
CONSTANT MaxOps = 5
CONSTANT Depth = 2
INVARIANT ContentKept
INVARIANT Emit
INVARIANT EmitTrees
CHECK_DEADLOCK FALSE
