SPECIFICATION Spec
VIEW View
INVARIANT Explored
CHECK_DEADLOCK FALSE
