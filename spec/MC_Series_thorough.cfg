SPECIFICATION Spec
CONSTANTS
  Cals = {"standard", "noleap", "360_day", "all_leap"}
  Kinds = {"6h", "day", "mon", "year"}
  MaxTimes = 11
  MaxFaults = 2
  Least = 3
INVARIANTS Exactly Sound NoFault Sorted
CHECK_DEADLOCK FALSE
