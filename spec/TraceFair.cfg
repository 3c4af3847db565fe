SPECIFICATION FairSpec
CHECK_DEADLOCK FALSE
