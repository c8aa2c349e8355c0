SPECIFICATION Spec
INVARIANTS Agree Viable Final Emit
CHECK_DEADLOCK FALSE
