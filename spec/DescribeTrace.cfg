INIT Init
NEXT Next
VIEW View
INVARIANTS Report ChangesReal
CHECK_DEADLOCK FALSE
CONSTANT Sep = "|SEP|"
