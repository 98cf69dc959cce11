INIT Init
NEXT Next
CONSTANTS
  Marks <- LintMarks
  RenderMarks <- LintRenderMarks
INVARIANTS StatusTells SilentWithoutAst AllFilesRead NothingDoneAtOnce
CHECK_DEADLOCK FALSE
