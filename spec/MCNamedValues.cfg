SPECIFICATION Spec
INVARIANTS FoundAgain Distinct OneKind OneMeasure
CHECK_DEADLOCK FALSE
