SPECIFICATION MSpec
CONSTANT MaxN = 9
INVARIANTS PassAllowed NothingBefore Ages
CHECK_DEADLOCK FALSE
