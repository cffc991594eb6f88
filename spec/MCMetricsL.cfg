SPECIFICATION Spec
CONSTANTS Samples = 3
          Outputs = 1
          Top = 3
INVARIANTS Exact ZeroMeansEqual Ordered
PROPERTY MaskedOutUnseen
CHECK_DEADLOCK FALSE
