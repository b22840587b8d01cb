SPECIFICATION Spec
INVARIANT SeriesEnds
CHECK_DEADLOCK FALSE
