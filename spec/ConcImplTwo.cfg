SPECIFICATION Spec
CONSTANTS p = p q = q Threads = {p, q} Ids = {1, 2} B = 3 MaxOps = 4 Ops = {"put", "get", "del", "puto", "sync"} Without = {} Emit = FALSE
INVARIANTS Right NoDeadlock Mirror Owned KillSafe
CHECK_DEADLOCK FALSE
VIEW View
SYMMETRY Sym
