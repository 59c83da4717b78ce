SPECIFICATION Spec
INVARIANT Once
INVARIANT Known
