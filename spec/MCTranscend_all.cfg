CONSTANTS
  Laws = {"exp","exp2","expm1","log","log2","log10","log1p","sincos","atan","asin","atan2","cbrt","hypot","pow","gamma","const"}
  Exps = {80,140,170,190,197,198,199,200,201,202,203,205,206,209,214}
  Sigs = {1,2,3,4,5,6}
  Base0 = 176
  GamP = 256
  GamTo = 64
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
