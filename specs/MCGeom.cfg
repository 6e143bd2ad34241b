CONSTANT N = 5
INIT Init
NEXT Next
INVARIANTS Formed ImagingIsRest ImagingHoldsImage ImagingIsReal
