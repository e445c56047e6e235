CONSTANT Layout = "8xp"
SPECIFICATION Spec
INVARIANTS Agree Sound OldAgree Effect Commute
PROPERTIES Frame Rejects
CHECK_DEADLOCK FALSE
