INIT Init
NEXT Next
INVARIANTS Report SetsOnly OneClassPerName
CHECK_DEADLOCK FALSE
