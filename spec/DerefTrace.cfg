SPECIFICATION Spec
CONSTANT IdLen = 32
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
