SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Ids = {1} B = 2 MaxOps = 3 Ops = {"put", "get", "sync", "close", "side"} Without = {"writelock", "again", "sidecheck", "getlock"} Emit = TRUE

CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Note
