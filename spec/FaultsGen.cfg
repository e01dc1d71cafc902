SPECIFICATION Spec
INVARIANTS HonestRun Export
PROPERTY Ends
CHECK_DEADLOCK FALSE
