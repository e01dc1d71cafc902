INIT Init
NEXT Next
INVARIANTS ScanLaw Report
CHECK_DEADLOCK FALSE
