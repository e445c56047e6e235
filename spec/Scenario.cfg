INIT Init
NEXT Next
VIEW View
CONSTANT Blob <- BlobOf
INVARIANT SoundFiles
INVARIANT Stable
PROPERTY Steps
CHECK_DEADLOCK FALSE
