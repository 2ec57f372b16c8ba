SPECIFICATION WSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
