SPECIFICATION TSpec
CONSTANTS
  Starts = {0, 1, 3}
  Ends = {0, 60, 366, 367, 373}
  Nums = {0, 2, 366, 367, 372}
  Given = {1366, 3369}
  Today = 30
  Asked = 2
  SeriesLen = 370
  Mode = "walk"
  Depth = 7
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
