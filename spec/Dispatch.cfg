SPECIFICATION Spec
VIEW view
INVARIANT TypeOK
INVARIANT Labels
INVARIANT Listed
INVARIANT EmitState
PROPERTY Independent
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
