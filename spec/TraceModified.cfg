SPECIFICATION Spec
CONSTANT File = "traces.json"
CHECK_DEADLOCK FALSE
