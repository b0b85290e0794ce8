SPECIFICATION Spec
INVARIANTS Meshes Repairs
CONSTANTS
 MaxT = 6
 MaxP = 4
 Span = 16
CHECK_DEADLOCK FALSE
