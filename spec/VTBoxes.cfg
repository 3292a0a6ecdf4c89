CONSTANTS
  FactsFile = "facts.ndjson"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
