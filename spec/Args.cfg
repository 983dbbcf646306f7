SPECIFICATION Spec
INVARIANTS Honoured Independent Closed Export
