SPECIFICATION Spec
CONSTANTS
  Messages <- LifeMessages
  Parts <- NoParts
  MaxPieces = 1
  Specials <- NoSpecials
  Configs <- FewConfigs
  Rngs <- SomeRngs
  Records = 3
  Faults = 1
  Ops = 4
  Attempts = 2
  Early = FALSE
  Emit = TRUE
CHECK_DEADLOCK FALSE
