SPECIFICATION Spec
INVARIANTS Reachable Consecutive Emit
PROPERTIES Independent Final RangesEnd
CHECK_DEADLOCK FALSE
