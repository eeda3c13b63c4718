SPECIFICATION Spec
CONSTANTS
  Dates = 2
  NServices = 1
  NTrips = 3
  NSlots = 2
  Runs = 1
  Opts = {"R"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
