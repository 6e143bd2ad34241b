SPECIFICATION TSpec
CONSTANTS
  TStart <- TheStart
  TFails <- TheFails
  TNext <- TheNext
