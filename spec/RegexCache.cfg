SPECIFICATION Spec
INVARIANTS Sound Right Exclusive
