SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT Stable
INVARIANT Canonical
INVARIANT Emit
CHECK_DEADLOCK FALSE
