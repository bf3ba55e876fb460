SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Ims = {2, 3}
INVARIANTS RoundTrip NeverFirst
PROPERTIES AutoReads Refused OneFile
CHECK_DEADLOCK FALSE
