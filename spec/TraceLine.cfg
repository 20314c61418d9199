CONSTANT Types <- CatalogTypes
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
