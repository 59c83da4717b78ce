SPECIFICATION Spec
INVARIANT NoSugarLeft
INVARIANT HoistedOnce
CHECK_DEADLOCK FALSE
