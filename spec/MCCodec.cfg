CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip SizeExact TruncationRejected TrailingIgnored EnumsDeclared Canonical Streamed
CHECK_DEADLOCK FALSE
