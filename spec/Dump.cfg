CONSTANTS
  Docs <- FileDocs
  Prop <- EnvProp
INIT Init
NEXT Next
VIEW StepView
INVARIANTS DumpAll
CHECK_DEADLOCK FALSE
