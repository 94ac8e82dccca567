SPECIFICATION Spec
CONSTANT MaxObjs = 2
CONSTANT MaxDepth = 2
CONSTANT NStart = 1
CONSTANT MaxVer = 1
INVARIANT Memoryless
INVARIANT WellFormed
PROPERTY Kept
PROPERTY KeptOuts
CHECK_DEADLOCK FALSE
CONSTANT MaxOuts = 1
VIEW View
CONSTANT Kinds = {"make", "convert", "look", "poke", "touch", "export", "spoil"}
