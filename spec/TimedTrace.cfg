SPECIFICATION Spec
VIEW View
INVARIANT Sound
INVARIANT Accept
CHECK_DEADLOCK FALSE
