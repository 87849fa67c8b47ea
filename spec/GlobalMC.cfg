SPECIFICATION Fair
CONSTANTS Threads = {1, 2} MaxOps = 2
INVARIANTS OneAdder Locked Alone
PROPERTIES AsWhole Apart Finishes
CHECK_DEADLOCK FALSE
