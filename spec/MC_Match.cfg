SPECIFICATION Spec
INVARIANTS Correct Emit
CHECK_DEADLOCK FALSE
