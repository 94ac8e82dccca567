SPECIFICATION Spec
CONSTANT MaxUser = 1
CONSTANT MaxCalls = 1
INVARIANT DefaultsKept
INVARIANT Override
INVARIANT SameResult
INVARIANT NoChange
INVARIANT Relevant
INVARIANT EmitAll
PROPERTY Again
CHECK_DEADLOCK FALSE
