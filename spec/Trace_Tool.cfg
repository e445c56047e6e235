CONSTANT Blob <- BlobOf
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
