SPECIFICATION Spec
INVARIANTS TypeOK FailClean Malformed Stateless Again
PROPERTIES Separate OnlyAssigned
VIEW View
CONSTRAINT Small
CHECK_DEADLOCK FALSE
