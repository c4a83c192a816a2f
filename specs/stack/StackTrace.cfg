SPECIFICATION TraceSpec
INVARIANTS OnePerState IndexesDistinct
