SPECIFICATION Spec
INVARIANTS Accounts Default Honoured Agree Back
CHECK_DEADLOCK FALSE
