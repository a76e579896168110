SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Tmpls = {0, 1, 20, 30, 40, 50}
  ModesOf = {0, 16, 64, 128, 176, 240, 8}
  Shapes = {1, 6, 9}
  Centres = {0, 64, 128}
  Sides = {0, 1, 2, 3}
  Extra = {0, 1}
INVARIANTS OnlyThere Refused Never Ordered Emit
