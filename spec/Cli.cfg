SPECIFICATION Spec
INVARIANT StatusTells
INVARIANT NoMessageOnFailure
INVARIANT BadDocNeverOk
INVARIANT Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
