SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT NothingLeft
INVARIANT VerdictIsLatexs
INVARIANT AllHandedOver
INVARIANT OnlyBadCodeFails
INVARIANT QuotedOnlyIfRefused
INVARIANT Emit
CHECK_DEADLOCK FALSE
