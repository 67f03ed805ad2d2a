SPECIFICATION MSpec
INVARIANTS Holds Fresh Bound
PROPERTY Terminates
