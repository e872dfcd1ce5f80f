CONSTANTS
  Base0 = 176
  GamP = 256
  GamTo = 64
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
