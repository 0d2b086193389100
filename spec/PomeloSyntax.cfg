SPECIFICATION Spec
INVARIANTS Ordered RoundTrip Alone Terminated
CHECK_DEADLOCK FALSE
