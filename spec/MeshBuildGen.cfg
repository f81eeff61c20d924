SPECIFICATION Spec
CONSTANTS NodeSet = {1, 2, 3, 4}
          TagSet = {0, 9}
          MaxDeclared = 3
INVARIANTS TypeOK Closed Minimal TagsKept
PROPERTIES Monotone TagStable
CHECK_DEADLOCK FALSE
CONSTRAINT Emit
