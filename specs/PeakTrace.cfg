SPECIFICATION TSpec
CONSTANTS
  Day = 1440
  Ns = {1, 2, 3, 7, 40}
  Nums = {1, 2, 3, 5}
  Powers = {1, 2, 3, 6, 70, 105, 1000}
  Enl = {0, 1, 5, 15, 40, 100}
  Zs = {10, 15, 17, 19, 20, 22, 24, 27, 31}
  Edges = {0, 1, 5, 59, 60, 333, 480, 720, 721, 1000, 1200, 1380, 1439, 1440}
  MaxUsers = 3
  MaxApps = 3
  MaxWins = 3
  Mode = "walk"
  Depth = 14
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
