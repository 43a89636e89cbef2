SPECIFICATION Spec
INVARIANTS Bounds Supports
CHECK_DEADLOCK FALSE
