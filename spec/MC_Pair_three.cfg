CONSTANTS Commands = 3 Chunks = 2 SameId = TRUE Protocol = "replace"
SPECIFICATION Spec
INVARIANTS Untorn ReadWhole Unhindered Settled Clean
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
