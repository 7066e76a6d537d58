SPECIFICATION ISpec
CONSTANTS Depth = 40 Sectors = 6 NBlocks = 3
 MIds = {0, 1, 2}
 Letters = {"put", "pute", "del", "delr", "flush", "sync", "gc", "side"}
 EmbSizes = {100, 495, 1005}
 Fix = {"endfirst", "both", "copyfirst", "headfirst", "last", "hold"}
 Crashes = {}
INVARIANT Whole1
VIEW View
CHECK_DEADLOCK FALSE
