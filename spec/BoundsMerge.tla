----------------------------- MODULE BoundsMerge -----------------------------
EXTENDS Bounds
ASSUME Least(LawUniverse)
ASSUME ndJsonSerialize(IOEnv.OUT, MergeRows)
=============================================================================
