SPECIFICATION Spec
INVARIANT AllSound
INVARIANT Required
