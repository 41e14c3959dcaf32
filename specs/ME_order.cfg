SPECIFICATION Spec
CONSTANTS
  Messages <- OrderMessages
  Parts <- AllParts
  MaxPieces = 2
  Specials <- OrderSpecials
  Configs <- OneConfig
  Rngs <- OkRng
  Records = 3
  Faults = 0
  Ops = 1
  Attempts = 1
  Early = FALSE
  Emit = TRUE
CHECK_DEADLOCK FALSE
