SPECIFICATION Spec
CONSTANT Triples = FALSE
VIEW View
INVARIANTS Show Unique Closed OrderFree Grouping Again AllOrNothing
PROPERTIES Grows
CHECK_DEADLOCK FALSE
