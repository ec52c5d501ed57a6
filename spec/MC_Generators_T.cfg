SPECIFICATION Spec
CONSTANTS Seeds = {1, 2}  Objs = {o1, o2}  MaxCalls = 6  Leaky = FALSE
  o1 = o1  o2 = o2
INVARIANTS Repeatable GlobalOwn
CHECK_DEADLOCK FALSE
