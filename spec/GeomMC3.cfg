SPECIFICATION Spec
CONSTANTS N = 3
 Grid = {0, 1}
INVARIANTS Invertible Stable Normals Closed Numbering Embedding Around
CHECK_DEADLOCK FALSE
