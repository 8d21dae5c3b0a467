SPECIFICATION Spec
CONSTANTS
  W = 2
  N = 3
  Failing = {1}
  How = "get"
  Spurious = TRUE
  Variant = "code"
INVARIANTS Mutual NoCrash ExactlyOnce
PROPERTIES Refines Terminates
