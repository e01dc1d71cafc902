CONSTANTS
  F <- EnvF
  N <- EnvN
SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
