SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OneValue
INVARIANT OnlyDeclared
