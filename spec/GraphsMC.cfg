SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS CliquesRight MinRight ForcedRight IndepRight
