CONSTANTS
  Docs <- FileDocs
  Prop <- EnvProp
INIT Init
NEXT Next
VIEW StepView
INVARIANTS Report GreedyLines JustifiedLines BoxAbove GridLaws ColumnLaws HeightLaws RowsWhole NoBreakInside HFDefault PagesBounded
CHECK_DEADLOCK FALSE
