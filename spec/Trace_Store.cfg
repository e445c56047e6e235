CONSTANT Blob <- BlobOf
INIT Init
NEXT StoreNext
CHECK_DEADLOCK FALSE
