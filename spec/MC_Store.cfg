CONSTANTS Chunks = 3 Protocol = "replace"
SPECIFICATION Spec
INVARIANTS OldOrNew DeletedLast AskedFirst ExitTrue FailureTrue NoLeftovers
PROPERTIES Stages Ends
CHECK_DEADLOCK FALSE
