CONSTANTS
  Laws = {"exp","exp2","expm1","log","log2","log10","log1p","sincos","atan","asin","atan2","cbrt","hypot","pow","gamma","const"}
  Exps = {60,75,80,110,140,155,170,190,197,198,199,200,201,202,203,205,206,208,209,211,214,216}
  Sigs = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24}
  Base0 = 176
  GamP = 256
  GamTo = 64
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
