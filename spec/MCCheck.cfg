SPECIFICATION Spec
INVARIANTS Meshes Repairs
CONSTANTS
 MaxT = 4
 MaxP = 4
 Span = 6
CHECK_DEADLOCK FALSE
