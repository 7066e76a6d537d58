SPECIFICATION Spec
CONSTANTS R = 3 MaxOps = 5 Writers = {"a"} Without = {} Emit = TRUE
INVARIANTS Reads Mine KillSafe Once
ACTION_CONSTRAINT Note
CHECK_DEADLOCK FALSE
VIEW View
