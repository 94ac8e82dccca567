SPECIFICATION Spec
CONSTANT MaxSteps = 4
INVARIANT Static
INVARIANT RouteIndependent
INVARIANT OneMatch
INVARIANT EmitFormulas
INVARIANT Emit
CHECK_DEADLOCK FALSE
