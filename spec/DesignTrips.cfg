SPECIFICATION Spec
CONSTANTS
  Dates = 2
  NServices = 1
  NTrips = 3
  NSlots = 3
  Runs = 2
  Opts = {"C", "R", "I", "T", "N", "X", "c", "O"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
