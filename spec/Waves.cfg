SPECIFICATION Spec
INVARIANTS Radiation Impedances Reciprocity HomogLaw Export
PROPERTY Decay
