SPECIFICATION Spec
CONSTANT MaxL = 3
INVARIANTS Faces Orient Valid NoneAtVertices Symmetric Distinct Parity
CHECK_DEADLOCK FALSE
