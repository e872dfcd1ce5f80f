-------------------------------- MODULE Exact --------------------------------
(***************************************************************************)
(* Exact arithmetic on finite binary numbers of any size.                  *)
(***************************************************************************)
EXTENDS IEEE754

\* exact values <<n, e>>: n * 2^e
Vd(x) == IF IsZero(x) THEN <<B0, 0>> ELSE <<SM(x), x.e>>
VAbs(x) == <<BAbs(x[1]), x[2]>>
VNeg(x) == <<BNeg(x[1]), x[2]>>
VAdd(x, y) == IF BIsZero(x[1]) THEN y ELSE IF BIsZero(y[1]) THEN x
              ELSE LET e == Min2(x[2], y[2]) IN <<BAdd(BShl(x[1], x[2] - e), BShl(y[1], y[2] - e)), e>>
VSub(x, y) == VAdd(x, VNeg(y))
VMul(x, y) == <<BMul(x[1], y[1]), x[2] + y[2]>>
VIs0(x) == BIsZero(x[1])
VTop(x) == BLen(x[1]) + x[2]             \* its leading bit is worth 2^(VTop - 1)
\* comparison of magnitudes
VCmpA(x, y) == IF VIs0(x) THEN (IF VIs0(y) THEN 0 ELSE -1) ELSE IF VIs0(y) THEN 1 ELSE CmpMag(BAbs(x[1]), x[2], BAbs(y[1]), y[2])
VSgn(x) == x[1][1]
VEq(x, y) == VSgn(x) = VSgn(y) /\ VCmpA(x, y) = 0
VScale(x, k) == <<x[1], x[2] + k>>
VPow(x, n) == <<BPow(x[1], n), n * x[2]>>
=============================================================================
