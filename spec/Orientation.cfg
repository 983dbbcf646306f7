SPECIFICATION Spec
INVARIANTS RuleIsSafe NineSum Export
CHECK_DEADLOCK FALSE
