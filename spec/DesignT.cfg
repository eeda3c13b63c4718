SPECIFICATION Spec
CONSTANTS
  Dates = 1
  NServices = 1
  NTrips = 3
  NSlots = 4
  Runs = 1
  Opts = {"T"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
