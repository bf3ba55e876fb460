SPECIFICATION Spec
CONSTANTS MaxOps = 3
 Ims = {2, 3}
INVARIANTS RoundTrip NeverFirst
PROPERTIES AutoReads Refused OneFile
CHECK_DEADLOCK FALSE
