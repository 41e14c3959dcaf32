SPECIFICATION Spec
CONSTANTS
  Messages <- LifeMessages
  Parts <- AllParts
  MaxPieces = 2
  Specials <- FewSpecials
  Configs <- AllConfigs
  Rngs <- SomeRngs
  Records = 14
  Faults = 6
  Ops = 20
  Attempts = 6
  Early = FALSE
  Emit = TRUE
CHECK_DEADLOCK FALSE
