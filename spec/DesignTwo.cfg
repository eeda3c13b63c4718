SPECIFICATION Spec
CONSTANTS
  Dates = 2
  NServices = 2
  NTrips = 2
  NSlots = 1
  Runs = 2
  Opts = {"C", "R", "I", "T", "N", "X", "c", "O"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
