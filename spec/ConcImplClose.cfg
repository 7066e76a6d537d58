SPECIFICATION Spec
CONSTANTS p = p q = q r = r Threads = {p, q, r} Ids = {1} B = 2 MaxOps = 3 Ops = {"put", "get", "puto", "sync", "close", "snapc", "side"} Without = {} Emit = FALSE
INVARIANTS Right NoDeadlock Mirror Owned KillSafe
CHECK_DEADLOCK FALSE
VIEW View
SYMMETRY Sym
