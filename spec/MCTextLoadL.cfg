INIT MCInit
NEXT MCNext
CONSTANTS Vals <- V2
  Dys = {1, 2}
  MaxLines = 3
  GenLines = 0
INVARIANTS RowsExact Refused NothingExcluded Contains Positive
CHECK_DEADLOCK FALSE
