SPECIFICATION Spec
CONSTANTS R = 3 MaxOps = 5 Writers = {"a", "b"} Without = {"before"} Emit = FALSE
INVARIANTS Reads Mine KillSafe Once
CHECK_DEADLOCK FALSE
VIEW View
