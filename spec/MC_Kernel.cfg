SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Coords = {"0.25", "-0.4", "1.1"}
  Alphas = {"0.8", "3"}
  Thetas = {"0.6", "1.7"}
INVARIANTS ClosedForm Symmetric Masked
CHECK_DEADLOCK FALSE
