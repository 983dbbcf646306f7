SPECIFICATION Spec
VIEW View
INVARIANTS UneditedAccepted ParSymmetric EndsSymmetric Export
CHECK_DEADLOCK FALSE
