CONSTANTS
  Subs = 3
  Depth = 3
  Chunks = {99}
  MaxFaults = 1
  Places = {0}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Independent HeldRight
