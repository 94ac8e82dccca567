SPECIFICATION Spec
CONSTANT MaxLen = 2
INVARIANT NothingLeft
INVARIANT VerdictIsLatexs
INVARIANT AllHandedOver
INVARIANT OnlyBadCodeFails
INVARIANT QuotedOnlyIfRefused
INVARIANT Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
