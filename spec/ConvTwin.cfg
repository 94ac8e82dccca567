SPECIFICATION TSpec
CONSTANT MaxObjs = 24
CONSTANT MaxDepth = 1
CONSTANT NStart = 1
CONSTANT MaxVer = 18
CONSTANT MaxOuts = 0
CONSTANT Kinds = {}
INVARIANT Memoryless
INVARIANT WellFormed
INVARIANT Distinct
INVARIANT TEmit
CHECK_DEADLOCK FALSE
