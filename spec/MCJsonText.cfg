SPECIFICATION Spec
CONSTANTS
  N = 5
  Alphabet = {34, 92, 32, 44, 58, 91, 93, 123, 125, 48, 45, 46, 101, 116, 114, 117, 110, 108, 102, 97, 115, 120, 7}
INVARIANT Inv
POSTCONDITION Export
CHECK_DEADLOCK FALSE
