SPECIFICATION Spec
CONSTANTS NCards = 2
 NInstances = 2
 NScales = 2
PROPERTY Isolated
PROPERTY SetKept
CHECK_DEADLOCK FALSE
