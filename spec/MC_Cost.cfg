SPECIFICATION Spec
VIEW View
INVARIANTS Inlined Sized Positive Adds Sessions
CHECK_DEADLOCK FALSE
