SPECIFICATION Spec
INVARIANTS VecIsSum MatIsSum
CHECK_DEADLOCK FALSE
