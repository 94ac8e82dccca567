SPECIFICATION Spec
CONSTANT Full = FALSE
VIEW view
INVARIANT TypeOK
INVARIANT AcceptedIsDefined
INVARIANT AcceptMonotone
INVARIANT EmitState
PROPERTY OnlyTheSlot
PROPERTY ChildExtends
PROPERTY RefusedIsNoop
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
