SPECIFICATION Spec
CONSTANT Triples = TRUE
VIEW View
INVARIANTS Show Unique Closed OrderFree Grouping Again AllOrNothing
PROPERTIES Grows
CHECK_DEADLOCK FALSE
