SPECIFICATION MCSpec
CONSTANTS
  MaxOps = 0
  Emit = FALSE
  MKinds = {"ddp", "fddp", "intro", "kkt"}
INVARIANTS FeasHonest RegRange SuccessSound BudgetKept
PROPERTIES OnlyByTaking TakenOnlyByRule Ends
CHECK_DEADLOCK FALSE
