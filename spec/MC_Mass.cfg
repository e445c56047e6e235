CONSTANT Blob <- BlobNow
INIT Init
NEXT Next
INVARIANTS Inside InputsKept Result Refused
CHECK_DEADLOCK FALSE
