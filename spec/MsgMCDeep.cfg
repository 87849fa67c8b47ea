SPECIFICATION Spec
CONSTANT Fields = 3
CONSTANT Deep = TRUE
VIEW View
INVARIANTS Show TypesOK OneOfEach WireRound WireCanon WireConcat Agree JsonRound TextRound
PROPERTIES Frame Puts
CHECK_DEADLOCK FALSE
