SPECIFICATION Spec
INVARIANT ReadOnce
INVARIANT Confluent
