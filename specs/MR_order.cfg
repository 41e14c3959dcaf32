SPECIFICATION Spec
CONSTANTS
  Messages <- WideMessages
  Parts <- AllParts
  MaxPieces = 2
  Specials <- WideSpecials
  Configs <- FewConfigs
  Rngs <- OkRng
  Records = 7
  Faults = 2
  Ops = 6
  Attempts = 1
  Early = FALSE
  Emit = TRUE
CHECK_DEADLOCK FALSE
