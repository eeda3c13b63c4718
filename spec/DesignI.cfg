SPECIFICATION Spec
CONSTANTS
  Dates = 2
  NServices = 2
  NTrips = 3
  NSlots = 1
  Runs = 1
  Opts = {"I"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
