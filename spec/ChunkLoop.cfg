SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxRows = 2
  Sizes = {1, 2, 3, 4, 5}
INVARIANT InOrder
INVARIANT AllTaken
INVARIANT Exact
INVARIANT Prefix
INVARIANT StatsOnce
INVARIANT StatsExact
INVARIANT CompletedIff
PROPERTY Ends
CHECK_DEADLOCK FALSE
