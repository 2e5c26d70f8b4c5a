INIT Init
NEXT Next
INVARIANTS Symmetric Reflexive Notices OtherKind OtherYUV
CHECK_DEADLOCK FALSE
