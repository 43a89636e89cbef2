SPECIFICATION Spec
INVARIANTS Judged Merged
PROPERTIES Stays Touch
VIEW View
CHECK_DEADLOCK FALSE
