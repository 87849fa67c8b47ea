SPECIFICATION Spec
CONSTANT Fields = 2
CONSTANT Deep = FALSE
VIEW View
INVARIANTS Show TypesOK OneOfEach WireRound WireCanon WireConcat Agree JsonRound TextRound
PROPERTIES Frame Puts
CHECK_DEADLOCK FALSE
