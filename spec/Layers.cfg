SPECIFICATION Spec
INVARIANTS MediumUnchanged HalfOpen Sane Export
PROPERTIES CutKeepsMedium
CHECK_DEADLOCK FALSE
