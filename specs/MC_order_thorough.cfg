SPECIFICATION Spec
CONSTANTS
  Messages <- WideMessages
  Parts <- AllParts
  MaxPieces = 1
  Specials <- WideSpecials
  Configs <- FewConfigs
  Rngs <- OkRng
  Records = 4
  Faults = 0
  Ops = 2
  Attempts = 1
  Early = TRUE
  Emit = FALSE
INVARIANTS OnlyAuthentic Order OfferedSuite CutsDoNotMatter OneEnd EveryCause Wants Fresh OfferedName OfferedNow NoSuccess Drawn Calls
PROPERTIES CallsEnd
CHECK_DEADLOCK FALSE
