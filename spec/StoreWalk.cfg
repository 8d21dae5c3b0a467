INIT Init
NEXT Next
CONSTANTS
  Names = {"a", "b"}
  Tables = {"t0", "t1"}
INVARIANT Sane
