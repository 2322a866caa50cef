SPECIFICATION Spec
CONSTANTS
  BlockLen = 64
  ChunkLen = 2048
  MaxChunks = 8
  Offsets = {2048, 2049, 2111, 2112, 2113, 3000, 4031, 4032, 4033, 4095}
  Ups = 3
VIEW View
INVARIANTS WellFormed Emit
CHECK_DEADLOCK FALSE
