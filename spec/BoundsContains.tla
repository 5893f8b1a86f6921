--------------------------- MODULE BoundsContains ---------------------------
EXTENDS Bounds
ASSUME Laws(LawUniverse)
ASSUME ndJsonSerialize(IOEnv.OUT, ContainsRows)
=============================================================================
