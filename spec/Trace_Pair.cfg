CONSTANT Blob <- BlobOf
INIT PairInit
NEXT PairNext
CHECK_DEADLOCK FALSE
