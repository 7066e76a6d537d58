SPECIFICATION ISpec
CONSTANTS Depth = 5 Sectors = 3 NBlocks = 2
 MIds = {0, 1}
 Letters = {"put", "pute", "del", "flush", "sync", "gc", "side"}
 EmbSizes = {237, 495}
 Fix = {"endfirst", "both", "copyfirst", "headfirst", "last", "hold"}
 Crashes = {}
ACTION_CONSTRAINT Note
VIEW View
CHECK_DEADLOCK FALSE
