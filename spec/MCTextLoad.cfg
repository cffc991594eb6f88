INIT MCInit
NEXT MCNext
CONSTANTS Vals <- V3
  Dys = {1}
  MaxLines = 2
  GenLines = 0
INVARIANTS RowsExact Refused NothingExcluded Contains Positive
CHECK_DEADLOCK FALSE
