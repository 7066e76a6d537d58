SPECIFICATION Spec
CONSTANTS R = 5 MaxOps = 8 Writers = {"a", "b"} Without = {} Emit = FALSE
INVARIANTS Reads Mine KillSafe Once
CHECK_DEADLOCK FALSE
VIEW View
