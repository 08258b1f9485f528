SPECIFICATION Spec
CONSTANTS
  Workers = 2
  Chunks = 4
  ChunkSize = 4
  Days = 2
  Seeded = TRUE
  Log = TRUE
INVARIANTS OnceEach Never2 OwnDay Independent Reproducible Emit
CHECK_DEADLOCK FALSE
