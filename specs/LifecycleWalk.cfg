SPECIFICATION Spec
CONSTANTS
  Starts = {0, 2, 5}
  Ends = {0, 5, 12}
  Nums = {0, 1, 3, 9}
  Given = {4002, 6009}
  Today = 30
  Asked = 2
  SeriesLen = 8
  Mode = "walk"
  Depth = 14
CHECK_DEADLOCK FALSE
