SPECIFICATION Spec
CONSTANT MaxObjs = 90
CONSTANT MaxDepth = 1
CONSTANT NStart = 24
CONSTANT MaxVer = 0
CONSTANT MaxOuts = 0
CONSTANT Kinds = {"make", "convert"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
