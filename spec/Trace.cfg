SPECIFICATION Spec
CONSTANTS
  Images <- TraceImages
  Files <- TraceFiles
CHECK_DEADLOCK FALSE
