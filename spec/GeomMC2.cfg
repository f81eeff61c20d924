SPECIFICATION Spec
CONSTANTS N = 2
 Grid = {0, 1, 3}
INVARIANTS Invertible Stable Normals Closed Numbering Embedding Around
CHECK_DEADLOCK FALSE
