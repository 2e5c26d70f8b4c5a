SPECIFICATION Spec
INVARIANTS Proper RoundTrip Whole
CHECK_DEADLOCK FALSE
