CONSTANTS MaxLen = 6
 MaxCalls = 4
SPECIFICATION Spec
INVARIANTS InOrderOnce Conserved Suffix RowMajor
PROPERTIES Needs
CHECK_DEADLOCK FALSE
