INIT Init
NEXT Step
VIEW View
INVARIANTS PiecesLaw Report
CHECK_DEADLOCK FALSE
