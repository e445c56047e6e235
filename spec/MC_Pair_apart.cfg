CONSTANTS Commands = 2 Chunks = 3 SameId = FALSE Protocol = "replace"
SPECIFICATION Spec
INVARIANTS Untorn ReadWhole Unhindered Settled Clean
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
