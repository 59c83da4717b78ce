SPECIFICATION Spec
INVARIANT Honest
INVARIANT Said
