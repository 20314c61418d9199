CONSTANT Types <- MCTypes
CONSTANT StationSet = {0, 1, 2}
CONSTANT MaxCables = 2
CONSTANT HwSet = {1, 2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SoundAlways
