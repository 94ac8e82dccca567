SPECIFICATION Spec
INVARIANT NeverStuck
INVARIANT AllThere
INVARIANT Functional
INVARIANT Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
