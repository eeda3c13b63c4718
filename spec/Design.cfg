SPECIFICATION Spec
CONSTANTS
  Dates = 2
  NServices = 2
  NTrips = 2
  NSlots = 2
  Runs = 1
  Opts = {"C", "R", "I", "T", "N", "X", "c", "O"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
