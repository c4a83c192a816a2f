SPECIFICATION TraceSpec
INVARIANT Closed
