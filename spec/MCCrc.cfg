INIT CrcInit
NEXT CrcNext
INVARIANTS CrcLinear CrcInput CrcInjective CrcBursts CrcSelfCheck
CHECK_DEADLOCK FALSE
