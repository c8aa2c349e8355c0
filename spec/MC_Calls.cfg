SPECIFICATION Spec
INVARIANTS Right
PROPERTIES Alone Returns
CHECK_DEADLOCK FALSE
