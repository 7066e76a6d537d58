SPECIFICATION MSpec
CONSTANTS Size = 3 Cap = 2 Depth = 3 MaxViews = 5 Emit = TRUE
INVARIANTS Apart Inside Outside
ACTION_CONSTRAINT Note
VIEW GenView
CHECK_DEADLOCK FALSE
