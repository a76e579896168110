CONSTANTS
  Subs = 4
  Depth = 3
  Chunks = {99}
  MaxFaults = 2
  Places = {0}
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Independent HeldRight
