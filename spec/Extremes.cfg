CONSTANT MaxLayers = 5
CONSTANT ResFrom = 16
CONSTANT ResTo = 34
CONSTANT ThickFrom = 13
CONSTANT ThickTo = 28
CONSTANT FreqFrom = 8
CONSTANT FreqTo = 30
CONSTANT Step = 3
SPECIFICATION Spec
INVARIANTS BehindWall Shielded Mutual Closing Static Export
CHECK_DEADLOCK FALSE
