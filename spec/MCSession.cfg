SPECIFICATION Spec
INVARIANT Kept
PROPERTIES LElsewhere LReadsBack LIdempotent LSameModel LRemoval LSave
CHECK_DEADLOCK FALSE
