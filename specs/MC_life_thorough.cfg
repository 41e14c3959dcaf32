SPECIFICATION Spec
CONSTANTS
  Messages <- LifeMessages
  Parts <- NoParts
  MaxPieces = 1
  Specials <- FewSpecials
  Configs <- SomeConfigs
  Rngs <- AllRngs
  Records = 5
  Faults = 2
  Ops = 6
  Attempts = 3
  Early = TRUE
  Emit = FALSE
INVARIANTS OnlyAuthentic Order OfferedSuite CutsDoNotMatter OneEnd EveryCause Wants Fresh OfferedName OfferedNow NoSuccess Drawn Calls
PROPERTIES CallsEnd
CHECK_DEADLOCK FALSE
