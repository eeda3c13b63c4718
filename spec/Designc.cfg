SPECIFICATION Spec
CONSTANTS
  Dates = 4
  NServices = 2
  NTrips = 1
  NSlots = 1
  Runs = 1
  Opts = {"c"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
