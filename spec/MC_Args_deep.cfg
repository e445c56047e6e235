INIT Init
NEXT Next
CONSTANT MaxOptions = 3
INVARIANTS Means Forms Twice Cut Help Positional Dump
CHECK_DEADLOCK FALSE
