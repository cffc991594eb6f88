SPECIFICATION Spec
CONSTANTS Samples = 2
          Outputs = 2
          Top = 2
INVARIANTS Exact ZeroMeansEqual Ordered
PROPERTY MaskedOutUnseen
CHECK_DEADLOCK FALSE
