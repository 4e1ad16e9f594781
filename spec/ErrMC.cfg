SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  Causes <- DCauses
  MaxOps = 4
INVARIANT OwnCause
PROPERTY Others
VIEW MCView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
