SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {0, 1}
  MaxLayers = 3
INVARIANTS FingerprintIsContent NoGaps NoOrphans NextIsFresh
PROPERTY Refines
CHECK_DEADLOCK FALSE
