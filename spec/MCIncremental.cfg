SPECIFICATION Spec
CONSTANTS
  BlockLen = 2
  ChunkLen = 6
  MaxTotal = 95
  MaxUpdate = 40
  Lanes = 4
  MaxDepth = 4
INVARIANTS CanFinalize Correct MergedBehindPartial StackBound Bounded Position ShapeWellFormed
PROPERTY RefinesShape
CHECK_DEADLOCK FALSE
