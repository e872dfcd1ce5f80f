CONSTANTS
  P = 3
  W = 3
  IB = 1
  Ops = {"pred","cmp","minmax","fdim","fmod","remainder","frexp","scale","logb","modf","next","nextafter","near"}
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
