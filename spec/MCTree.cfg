SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTIES Order Local
CHECK_DEADLOCK FALSE
