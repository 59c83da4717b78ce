SPECIFICATION Spec
INVARIANTS Sane Strip
