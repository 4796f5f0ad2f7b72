SPECIFICATION Spec
CONSTANTS NT = 4 NV = 3 B = 2 E = 2
INVARIANT Protocol
PROPERTY Ends
