SPECIFICATION MSpec
CONSTANTS Depth = 6 MaxHist = 5 Cap = 4 Emit = FALSE
 Letters = {"put", "pute", "puto", "del", "delr", "flush", "sync", "reopen", "crash", "power"}
 SizesOf = {2, 3}
INVARIANTS KillMeans KillAll PowerMeans PowerTouched PowerWeaker DumpMeans Space
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
