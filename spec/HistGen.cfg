CONSTANTS
  Slots <- EnvSlots
  Runs <- EnvRuns
  Slices <- EnvSlices
  Extras <- EnvExtras
  Engines <- EnvEngines
SPECIFICATION Spec
INVARIANTS Export Pure
PROPERTY Unchanged
CHECK_DEADLOCK FALSE
