SPECIFICATION Spec
INVARIANTS Sound Right Exclusive
PROPERTY Served
