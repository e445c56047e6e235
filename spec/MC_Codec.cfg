INIT Init
NEXT Next
INVARIANT Lossless
INVARIANT RuleTrue
INVARIANT SameAsFunction
INVARIANT StuckTrue
INVARIANT Divided
PROPERTY Best
CHECK_DEADLOCK FALSE
