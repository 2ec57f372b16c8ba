SPECIFICATION QSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
