SPECIFICATION Spec
CONSTANTS
  Messages <- LifeMessages
  Parts <- AllParts
  MaxPieces = 2
  Specials <- WideSpecials
  Configs <- FewConfigs
  Rngs <- OkRng
  Records = 7
  Faults = 14
  Ops = 18
  Attempts = 1
  Early = FALSE
  Emit = TRUE
CHECK_DEADLOCK FALSE
