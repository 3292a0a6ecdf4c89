CONSTANTS
 NSlots = 5
 Vals = {1, 2}
 Types = {1, 2, 3, 4}
 FactsFile = "facts.ndjson"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
