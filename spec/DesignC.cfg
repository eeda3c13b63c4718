SPECIFICATION Spec
CONSTANTS
  Dates = 3
  NServices = 3
  NTrips = 1
  NSlots = 1
  Runs = 1
  Opts = {"C"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
