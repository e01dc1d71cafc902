CONSTANTS
  Docs <- FileDocs
  Prop <- EnvProp
SPECIFICATION Spec
PROPERTY Ends
INVARIANT FrameOK
CHECK_DEADLOCK FALSE
