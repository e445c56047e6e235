INIT Init
NEXT Next
INVARIANTS TotalOrder OneEntryPerKey PrefixFree Named LineBreak SelfMatch Readable
CHECK_DEADLOCK FALSE
