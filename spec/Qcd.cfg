CONSTANTS MaxQueries = 1
SPECIFICATION Spec
INVARIANT Minimal
INVARIANT Connected
INVARIANT EndsThere
INVARIANT RefusedOnlyOutside
INVARIANT NeverRefused
INVARIANT EmitPlan
CHECK_DEADLOCK FALSE
