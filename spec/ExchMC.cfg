SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxCount = 1
  Ways = {"all", "pairs"}
INVARIANTS Delivered OnlyNeeded NothingLeft Order
PROPERTY Ends
CONSTRAINT Emit
