SPECIFICATION Spec
CONSTANTS NodeSet = {1, 2, 3, 4}
          TagSet = {7}
INVARIANTS ViewClosed Converse CountsOK TopOnce
CHECK_DEADLOCK FALSE
