CONSTANTS
  P = 3
  W = 3
  IB = 0
  Ops = {"enc", "cmp", "add", "mul", "div", "sqrt", "rint"}
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
