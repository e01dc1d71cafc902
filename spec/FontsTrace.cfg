INIT Init
NEXT Next
VIEW View
INVARIANTS Report Count
CHECK_DEADLOCK FALSE
