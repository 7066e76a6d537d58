SPECIFICATION MSpec
CONSTANTS Depth = 4 MaxHist = 6 Cap = 4 Emit = TRUE
 Letters = {"put", "pute", "puto", "del", "delr", "flush", "sync", "reopen", "gc", "stop"}
 SizesOf = {2, 3}
INVARIANTS DumpMeans Space
ACTION_CONSTRAINT Note
VIEW GenView
CHECK_DEADLOCK FALSE
