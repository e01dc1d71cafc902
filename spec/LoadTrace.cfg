INIT Init
NEXT Next
VIEW View
INVARIANTS Report Stack
CHECK_DEADLOCK FALSE
CONSTANTS Sep = ""
