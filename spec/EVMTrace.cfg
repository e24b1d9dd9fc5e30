SPECIFICATION Spec
INVARIANTS StackBounded GasBounded MemoryWords StaticPure OutputOnly
PROPERTIES MemoryGrows WarmGrows
CHECK_DEADLOCK FALSE
