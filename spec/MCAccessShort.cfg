CONSTANTS
  Subs = 3
  Depth = 2
  Chunks = {1, 2, 99}
  MaxFaults = 2
  Places = {0, 14, 21, 40}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Independent HeldRight
