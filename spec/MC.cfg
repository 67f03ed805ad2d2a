SPECIFICATION MSpec
INVARIANTS Holds Fresh Bound
