SPECIFICATION Spec
CONSTANT OBJ = {1, 2, 3}
