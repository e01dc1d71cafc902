INIT Init
NEXT Next
INVARIANTS Report Complete
CHECK_DEADLOCK FALSE
