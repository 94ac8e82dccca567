SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANT Static
INVARIANT StaticBern
INVARIANT StaticLep
INVARIANT StaticFK
INVARIANT Routes
INVARIANT Complete
INVARIANT Known
INVARIANT JmsSources
INVARIANT EmitJms
INVARIANT Emit
CHECK_DEADLOCK FALSE
