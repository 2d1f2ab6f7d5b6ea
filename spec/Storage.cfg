SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {0, 1}
  MaxLayers = 3
INVARIANTS ReadLatest Monotone
PROPERTIES DirtyRefused OneLayerAtATime HistoryImmutable RewindExact
CHECK_DEADLOCK FALSE
