CONSTANT N = 7
INIT Init
NEXT Next
INVARIANTS Formed ImagingIsRest ImagingHoldsImage ImagingIsReal
