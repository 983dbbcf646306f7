SPECIFICATION Spec
INVARIANTS AngleKept Window Cover LagNeeds LargestExact SingleExact SplExact Export
