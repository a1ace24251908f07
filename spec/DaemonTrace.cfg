SPECIFICATION Spec
CONSTANT DefOf <- TDefOf
INVARIANTS SerialLimit QueueLimit Counted
CHECK_DEADLOCK FALSE
