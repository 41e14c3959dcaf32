SPECIFICATION Spec
CONSTANTS
  Messages <- Flight
  Parts <- NoParts
  MaxPieces = 1
  Specials <- NoSpecials
  Configs <- OneConfig
  Rngs <- OkRng
  Records = 3
  Faults = 2
  Ops = 3
  Attempts = 1
  Early = FALSE
  Emit = TRUE
CHECK_DEADLOCK FALSE
