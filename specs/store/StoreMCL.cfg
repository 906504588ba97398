SPECIFICATION MSpec
CONSTANT MaxN = 12
INVARIANTS PassAllowed NothingBefore Ages
CHECK_DEADLOCK FALSE
