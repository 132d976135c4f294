SPECIFICATION Spec
INVARIANT DesignOk
CHECK_DEADLOCK FALSE
