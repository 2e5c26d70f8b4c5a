SPECIFICATION Spec
INVARIANTS Confidential Authentic Preserved
CHECK_DEADLOCK FALSE
CONSTANTS
  People = {"a", "b", "c"}
  Secrets = {"s", "t"}
  Parts = {"title", "authenticator"}
  Values = {"v", "w"}
  Kept = {"title"}
  MaxMail = 2
