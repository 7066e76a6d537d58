SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Ids = {1} B = 2 MaxOps = 3 Ops = {"put", "get", "puto", "sync", "close", "snapc", "side"} Without = {} Emit = TRUE

CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Note
