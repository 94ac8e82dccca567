SPECIFICATION Spec
CONSTANT MaxObjs = 3
CONSTANT MaxDepth = 2
CONSTANT NStart = 1
CONSTANT MaxVer = 0
INVARIANT Memoryless
INVARIANT WellFormed
PROPERTY Kept
PROPERTY KeptOuts
CHECK_DEADLOCK FALSE
CONSTANT MaxOuts = 1
VIEW View
CONSTANT Kinds = {"make", "convert", "look", "poke", "touch", "export", "spoil"}
