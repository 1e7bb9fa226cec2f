CONSTANTS MaxLen = 8
 MaxCalls = 5
SPECIFICATION Spec
INVARIANTS InOrderOnce Conserved Suffix RowMajor
PROPERTIES Needs
CHECK_DEADLOCK FALSE
