SPECIFICATION Spec
CONSTANTS
  Dates = 3
  NServices = 2
  NTrips = 2
  NSlots = 1
  Runs = 1
  Opts = {"N"}
INVARIANTS Completed Offered StaysSound
PROPERTY Ends
CHECK_DEADLOCK FALSE
