SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Ids = {1} B = 2 MaxOps = 4 Ops = {"put", "get", "del", "puto", "sync"} Without = {"getlock", "lookup", "onlynew", "updatelock"} Emit = TRUE

CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT Note
