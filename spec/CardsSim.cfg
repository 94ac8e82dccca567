SPECIFICATION Spec
CONSTANTS NCards = 3
 NInstances = 4
 NScales = 3
INVARIANT Log
CHECK_DEADLOCK FALSE
