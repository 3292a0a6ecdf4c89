CONSTANTS
  FactsFile = "facts.ndjson"
SPECIFICATION Spec
INVARIANT Done
CHECK_DEADLOCK FALSE
