SPECIFICATION Spec
CONSTANTS Files = {"f", "g"}
  MaxLen = 0
INVARIANTS Preserved BinExact
PROPERTIES NoTornLoad
CHECK_DEADLOCK FALSE
