CONSTANTS
  W0 = 10
  STAR = {3, 17, 20, 26}
INIT Init
NEXT Next
INVARIANTS Total SameDetectorPixel SamePlaces Window
