SPECIFICATION CSpec
INVARIANT OncePlaced
INVARIANT OnceLabelled
INVARIANT OnceStated
INVARIANT AllStated
INVARIANT Count
INVARIANT NotConjugated
INVARIANT StandardApart
INVARIANT StandardOnce
INVARIANT SchemesDiffer
INVARIANT CEmit
INVARIANT EmitCards
CHECK_DEADLOCK FALSE
