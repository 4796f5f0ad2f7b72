SPECIFICATION Spec
CONSTANT LEN = 12
INVARIANT Emit
