SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  System = 6
INVARIANTS Covered Minimal Grouped Kinds
CHECK_DEADLOCK FALSE
