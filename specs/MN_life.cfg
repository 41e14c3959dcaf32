SPECIFICATION Spec
CONSTANTS
  Messages <- LifeMessages
  Parts <- NoParts
  MaxPieces = 1
  Specials <- NoSpecials
  Configs <- SomeConfigs
  Rngs <- AllRngs
  Records = 3
  Faults = 1
  Ops = 5
  Attempts = 2
  Connect <- StaleConnect
  Early = TRUE
  Emit = FALSE
INVARIANTS OnlyAuthentic Order OfferedSuite CutsDoNotMatter OneEnd EveryCause Wants Fresh OfferedName OfferedNow NoSuccess Drawn Calls
CHECK_DEADLOCK FALSE
