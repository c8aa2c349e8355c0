SPECIFICATION Spec
INVARIANTS Inside Captures Agrees Short
PROPERTIES Ends_
CHECK_DEADLOCK FALSE
