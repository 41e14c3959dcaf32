SPECIFICATION Spec
CONSTANTS
  Messages <- OrderMessages
  Parts <- AllParts
  MaxPieces = 2
  Specials <- OrderSpecials
  Configs <- FewConfigs
  Rngs <- OkRng
  Records = 3
  Faults = 0
  Ops = 2
  Attempts = 1
  Early = TRUE
  Emit = FALSE
INVARIANTS OnlyAuthentic Order OfferedSuite CutsDoNotMatter OneEnd EveryCause Wants Fresh OfferedName OfferedNow NoSuccess Drawn Calls
PROPERTIES CallsEnd
CHECK_DEADLOCK FALSE
