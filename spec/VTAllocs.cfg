CONSTANTS
 FactsFile = "facts.ndjson"
SPECIFICATION Spec
INVARIANT Balanced
CHECK_DEADLOCK FALSE
