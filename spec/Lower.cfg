CONSTANTS Coefs = {"a", "b"}
          MaxRedefs = 1
SPECIFICATION Spec
VIEW view
INVARIANT Chain
INVARIANT NothingInvented
PROPERTY Shrinks
PROPERTY OnlyMatchMoves
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
