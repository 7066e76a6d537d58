SPECIFICATION ISpec
CONSTANTS Depth = 6 Sectors = 3 NBlocks = 2
 MIds = {0, 1}
 Letters = {"put", "pute", "del", "flush", "sync", "gc", "side"}
 EmbSizes = {237, 495}
 Fix = {"both", "copyfirst", "headfirst", "last", "hold"}
 Crashes = {}
INVARIANTS TypeOK Owned Reads KillSafe PowerSafe Compact
VIEW View
CHECK_DEADLOCK TRUE
