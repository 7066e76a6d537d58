SPECIFICATION ISpec
CONSTANTS Depth = 40 Sectors = 4 NBlocks = 2
 MIds = {0, 1, 2}
 Letters = {"put", "pute", "del", "delr", "flush", "sync", "gc", "side"}
 EmbSizes = {100, 237, 495}
 Fix = {"endfirst", "both", "copyfirst", "headfirst", "last", "hold"}
 Crashes = {"kill", "power"}
INVARIANTS TypeOK Owned Reads KillSafe PowerSafe Compact
VIEW View
CHECK_DEADLOCK TRUE
