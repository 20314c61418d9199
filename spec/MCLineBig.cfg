CONSTANT Types <- MCTypes
CONSTANT StationSet = {0, 1, 2, 3}
CONSTANT MaxCables = 2
CONSTANT HwSet = {0, 1, 2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SoundAlways
