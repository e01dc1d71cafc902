CONSTANTS N = 6 TN = 9
INIT Init
NEXT Next
INVARIANTS ScanLaw Confluent Export
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
