SPECIFICATION Spec
CONSTANTS
  Messages <- FewMessages
  Parts <- AllParts
  MaxPieces = 2
  Specials <- FewSpecials
  Configs <- OneConfig
  Rngs <- OkRng
  Records = 4
  Faults = 3
  Ops = 4
  Attempts = 1
  Early = TRUE
  Emit = FALSE
INVARIANTS OnlyAuthentic Order OfferedSuite CutsDoNotMatter OneEnd EveryCause Wants Fresh OfferedName OfferedNow NoSuccess Drawn Calls
PROPERTIES CallsEnd
CHECK_DEADLOCK FALSE
