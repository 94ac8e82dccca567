SPECIFICATION Spec
CONSTANT MaxUser = 14
CONSTANT MaxCalls = 100
INVARIANT DefaultsKept
INVARIANT Override
INVARIANT SameResult
INVARIANT NoChange
INVARIANT EmitSim
CHECK_DEADLOCK FALSE
