INIT Init
NEXT Next
CONSTANTS
  Regs = {1, 2}
  Dom = {0, 1}
INVARIANT Sane
