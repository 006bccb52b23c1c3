SPECIFICATION Spec
INVARIANTS TableOk FoundOk AliveOk
CHECK_DEADLOCK FALSE
