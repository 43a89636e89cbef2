SPECIFICATION Spec
INVARIANTS SupportAgrees ExactOnce Worlds Variables
CHECK_DEADLOCK FALSE
