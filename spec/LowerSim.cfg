CONSTANTS Coefs = {"a", "b", "c"}
          MaxRedefs = 6
SPECIFICATION Spec
INVARIANT Chain
INVARIANT NothingInvented
INVARIANT EmitSim
CHECK_DEADLOCK FALSE
