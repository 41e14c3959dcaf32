SPECIFICATION Spec
CONSTANTS
  Messages <- FewMessages
  Parts <- AllParts
  MaxPieces = 1
  Specials <- FewSpecials
  Configs <- OneConfig
  Rngs <- OkRng
  Records = 3
  Faults = 2
  Ops = 3
  Attempts = 1
  Early = TRUE
  Emit = FALSE
INVARIANTS OnlyAuthentic Order OfferedSuite CutsDoNotMatter OneEnd EveryCause Wants Fresh OfferedName OfferedNow NoSuccess Drawn Calls
PROPERTIES CallsEnd
CHECK_DEADLOCK FALSE
