SPECIFICATION Spec
CONSTANT MaxObjs = 12
CONSTANT MaxDepth = 3
CONSTANT NStart = 3
CONSTANT MaxVer = 3
INVARIANT Memoryless
INVARIANT WellFormed
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT MaxOuts = 8
CONSTANT Kinds = {"make", "convert", "look", "poke", "touch", "export", "spoil"}
