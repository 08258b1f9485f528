SPECIFICATION Spec
CONSTANTS
  Workers = 3
  Chunks = 6
  ChunkSize = 2
  Days = 3
  Seeded = TRUE
  Log = FALSE
INVARIANTS OnceEach Never2 OwnDay Independent Reproducible
PROPERTY Ends
CHECK_DEADLOCK FALSE
