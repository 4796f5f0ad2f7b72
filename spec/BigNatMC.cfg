SPECIFICATION Spec
INVARIANT Right
