CONSTANTS Commands = 2 Chunks = 3 SameId = TRUE Protocol = "shared"
SPECIFICATION Spec
INVARIANTS Untorn ReadWhole Unhindered Settled Clean
PROPERTIES Atomic
CHECK_DEADLOCK FALSE
