INIT Init
NEXT Next
CONSTANT MaxOptions = 2
INVARIANTS Means Forms Twice Cut Help Positional Dump
CHECK_DEADLOCK FALSE
