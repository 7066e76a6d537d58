SPECIFICATION MSpec
CONSTANTS Size = 4 Cap = 3 Depth = 4 MaxViews = 7 Emit = FALSE
INVARIANTS Apart Inside Outside
PROPERTY Own
VIEW GenView
CHECK_DEADLOCK FALSE
