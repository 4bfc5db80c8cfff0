SPECIFICATION TSpecification
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Check = {"C18","C19","C20","C21"}
