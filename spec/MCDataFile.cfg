SPECIFICATION Spec
CONSTANTS Files = {"f"}
  MaxLen = 0
INVARIANTS Preserved BinExact
PROPERTIES NoTornLoad
CHECK_DEADLOCK FALSE
