SPECIFICATION Spec
VIEW View
INVARIANT Accept
CHECK_DEADLOCK FALSE
